//! Stand-in for the `scuttlebutt` crate of GaloisInc/swanky (a git dependency this sandbox does not have):
//! only the 128-bit `Block` type that mpc-core uses.
use rand::{Rng, distributions::{Distribution, Standard}};
use subtle::{Choice, ConditionallySelectable};

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
#[repr(transparent)]
pub struct Block(pub [u8; 16]);

impl Block {
    pub fn to_u128(self) -> u128 {
        u128::from_le_bytes(self.0)
    }
    pub fn from_u128(x: u128) -> Self {
        Block(x.to_le_bytes())
    }
}
impl AsRef<[u8]> for Block {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl AsMut<[u8]> for Block {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl std::ops::BitXor for Block {
    type Output = Block;
    fn bitxor(self, o: Block) -> Block {
        Block::from_u128(self.to_u128() ^ o.to_u128())
    }
}
impl std::ops::BitXorAssign for Block {
    fn bitxor_assign(&mut self, o: Block) {
        *self = *self ^ o;
    }
}
impl ConditionallySelectable for Block {
    fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
        if choice.unwrap_u8() == 1 { *b } else { *a }
    }
}
impl Distribution<Block> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Block {
        Block::from_u128(rng.r#gen())
    }
}
