//! Stand-in for the `fancy-garbling` crate of GaloisInc/swanky (a git dependency this sandbox does not have).
//! It implements the mod-2 wire labels and the traits mpc-core builds its garbled circuits on. The garbling
//! itself (half gates, circuits, garbler and evaluator) is mpc-core's own code and is what gets checked.
use rand::{CryptoRng, Rng};
use scuttlebutt::Block;
use sha3::{Digest, Sha3_256};
use subtle::{Choice, ConditionallySelectable};

pub mod errors {
    #[derive(Debug, Clone)]
    pub enum FancyError {
        InvalidArg(String),
        InvalidArgNum { got: usize, needed: usize },
    }
    #[derive(Debug, Clone)]
    pub enum GarblerError {
        CommunicationError(String),
        FancyError(FancyError),
    }
    #[derive(Debug, Clone)]
    pub enum EvaluatorError {
        CommunicationError(String),
        DecodingFailed,
        FancyError(FancyError),
    }
    impl From<FancyError> for GarblerError {
        fn from(e: FancyError) -> Self {
            GarblerError::FancyError(e)
        }
    }
    impl From<FancyError> for EvaluatorError {
        fn from(e: FancyError) -> Self {
            EvaluatorError::FancyError(e)
        }
    }
    macro_rules! display {
        ($($t:ty),*) => {$(impl std::fmt::Display for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") }
        }
        impl std::error::Error for $t {})*};
    }
    display!(FancyError, GarblerError, EvaluatorError);
}
pub use errors::FancyError;

pub mod util {
    use scuttlebutt::Block;
    pub fn tweak2(x: u64, y: u64) -> Block {
        Block::from_u128(((x as u128) << 64) | y as u128)
    }
    pub fn output_tweak(i: usize, k: u16) -> Block {
        Block::from_u128((1u128 << 127) | ((i as u128) << 32) | k as u128)
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
#[repr(transparent)]
pub struct WireMod2 {
    val: Block,
}

fn hash_block(b: Block, tweak: Block) -> Block {
    let mut h = Sha3_256::default();
    h.update(b.as_ref());
    h.update(tweak.as_ref());
    let d = h.finalize();
    let mut out = [0u8; 16];
    out.copy_from_slice(&d[..16]);
    Block(out)
}

pub trait WireLabel: Sized + Clone + Copy {
    fn color(&self) -> u16;
    fn as_block(&self) -> Block;
    fn from_block(inp: Block, q: u16) -> Self;
    fn zero(q: u16) -> Self;
    fn rand<R: CryptoRng + Rng>(rng: &mut R, q: u16) -> Self;
    fn rand_delta<R: CryptoRng + Rng>(rng: &mut R, q: u16) -> Self;
    fn plus_eq<'a>(&'a mut self, other: &Self) -> &'a mut Self;
    fn cmul_eq(&mut self, c: u16) -> &mut Self;
    fn hash_to_mod(hash: Block, q: u16) -> Self;
    fn plus(&self, other: &Self) -> Self {
        let mut r = *self;
        r.plus_eq(other);
        r
    }
    fn plus_mov(mut self, other: &Self) -> Self {
        self.plus_eq(other);
        self
    }
    fn cmul(&self, c: u16) -> Self {
        let mut r = *self;
        r.cmul_eq(c);
        r
    }
    fn hash(&self, tweak: Block) -> Block {
        hash_block(self.as_block(), tweak)
    }
}

impl WireLabel for WireMod2 {
    fn color(&self) -> u16 {
        (self.val.0[0] & 1) as u16
    }
    fn as_block(&self) -> Block {
        self.val
    }
    fn from_block(inp: Block, _q: u16) -> Self {
        WireMod2 { val: inp }
    }
    fn zero(_q: u16) -> Self {
        Self::default()
    }
    fn rand<R: CryptoRng + Rng>(rng: &mut R, _q: u16) -> Self {
        WireMod2 { val: rng.r#gen() }
    }
    fn rand_delta<R: CryptoRng + Rng>(rng: &mut R, q: u16) -> Self {
        let mut w = Self::rand(rng, q);
        w.val.0[0] |= 1;
        w
    }
    fn plus_eq<'a>(&'a mut self, other: &Self) -> &'a mut Self {
        self.val ^= other.val;
        self
    }
    fn cmul_eq(&mut self, c: u16) -> &mut Self {
        if c & 1 == 0 {
            self.val = Block::default();
        }
        self
    }
    fn hash_to_mod(hash: Block, q: u16) -> Self {
        Self::from_block(hash, q)
    }
}
impl ConditionallySelectable for WireMod2 {
    fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
        WireMod2 { val: Block::conditional_select(&a.val, &b.val, choice) }
    }
}

pub fn hash_wires<const Q: usize, W: WireLabel>(wires: [&W; Q], tweak: Block) -> [Block; Q] {
    wires.map(|w| w.hash(tweak))
}

#[derive(Clone, Debug)]
pub struct BinaryBundle<W>(Vec<W>);
impl<W> BinaryBundle<W> {
    pub fn new(ws: Vec<W>) -> Self {
        BinaryBundle(ws)
    }
    pub fn wires(&self) -> &[W] {
        &self.0
    }
    pub fn size(&self) -> usize {
        self.0.len()
    }
    pub fn extract(self) -> BinaryBundle<W> {
        self
    }
    pub fn iter(&self) -> std::slice::Iter<'_, W> {
        self.0.iter()
    }
}

pub trait Fancy {
    type Item: Clone;
    type Error: std::fmt::Debug + std::fmt::Display + From<FancyError>;
    fn constant(&mut self, x: u16, q: u16) -> Result<Self::Item, Self::Error>;
    fn output(&mut self, x: &Self::Item) -> Result<Option<u16>, Self::Error>;
    fn outputs(&mut self, xs: &[Self::Item]) -> Result<Option<Vec<u16>>, Self::Error> {
        let mut zs = Vec::with_capacity(xs.len());
        for x in xs {
            zs.push(self.output(x)?);
        }
        Ok(zs.into_iter().collect())
    }
}

pub trait FancyBinary: Fancy {
    fn xor(&mut self, x: &Self::Item, y: &Self::Item) -> Result<Self::Item, Self::Error>;
    fn and(&mut self, x: &Self::Item, y: &Self::Item) -> Result<Self::Item, Self::Error>;
    fn negate(&mut self, x: &Self::Item) -> Result<Self::Item, Self::Error>;
    fn or(&mut self, x: &Self::Item, y: &Self::Item) -> Result<Self::Item, Self::Error> {
        let nx = self.negate(x)?;
        let ny = self.negate(y)?;
        let z = self.and(&nx, &ny)?;
        self.negate(&z)
    }
    fn mux(&mut self, b: &Self::Item, x: &Self::Item, y: &Self::Item) -> Result<Self::Item, Self::Error> {
        // b = 0 -> x, b = 1 -> y
        let xy = self.xor(x, y)?;
        let t = self.and(b, &xy)?;
        self.xor(&t, x)
    }
    fn and_many(&mut self, args: &[Self::Item]) -> Result<Self::Item, Self::Error> {
        let (first, rest) = args
            .split_first()
            .ok_or_else(|| Self::Error::from(FancyError::InvalidArgNum { got: 0, needed: 1 }))?;
        let mut acc = first.clone();
        for x in rest {
            acc = self.and(&acc, x)?;
        }
        Ok(acc)
    }
    fn or_many(&mut self, args: &[Self::Item]) -> Result<Self::Item, Self::Error> {
        let (first, rest) = args
            .split_first()
            .ok_or_else(|| Self::Error::from(FancyError::InvalidArgNum { got: 0, needed: 1 }))?;
        let mut acc = first.clone();
        for x in rest {
            acc = self.or(&acc, x)?;
        }
        Ok(acc)
    }
}
