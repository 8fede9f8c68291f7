//! Executes operations of the ring and wide-integer types on given operands and records the results of every form
//! (operator, by-reference, assigning, wrapping method) side by side.
use ark_ff::BigInteger;
use mpc_core::protocols::rep3_ring::ring::{bit::Bit, int_ring::IntRing2k, ring_impl::RingElement};
use mpc_core::uint::{FieldUint, RUint, U256, U320, U384, U512, U1024, UintBackend};
use num_bigint::BigUint;
use num_traits::{AsPrimitive, One, Zero};
use rand::SeedableRng;
use serde_json::{Value, json};
use vmpc::{main_loop, quiet};

trait Raw: Copy {
    fn of(b: &[u8]) -> Self;
    fn raw(&self) -> Vec<u8>;
}
macro_rules! prim {
    ($($t:ty),*) => {$(
        impl Raw for $t {
            fn of(b: &[u8]) -> Self {
                b.iter().rev().fold(0u128, |x, d| (x << 8) | *d as u128) as $t
            }
            fn raw(&self) -> Vec<u8> {
                self.to_le_bytes().to_vec()
            }
        }
    )*};
}
prim!(u8, u16, u32, u64, u128);
impl Raw for Bit {
    fn of(b: &[u8]) -> Self {
        Bit::new(b[0] & 1 == 1)
    }
    fn raw(&self) -> Vec<u8> {
        vec![self.convert() as u8]
    }
}
impl<const N: usize, const L: usize> Raw for RUint<N, L> {
    fn of(b: &[u8]) -> Self {
        let l: Vec<u64> = b.chunks(8).map(|c| c.iter().rev().fold(0u64, |x, d| (x << 8) | *d as u64)).collect();
        RUint::from_limbs_truncating(&l)
    }
    fn raw(&self) -> Vec<u8> {
        self.as_limbs().iter().flat_map(|l| l.to_le_bytes()).collect()
    }
}

fn bytes(v: &Value) -> Vec<u8> {
    vmpc::ints(v).into_iter().map(|x| x as u8).collect()
}
/// results of several forms of one operation
struct Outs(Vec<Value>);
impl Outs {
    fn put(&mut self, f: &str, v: impl FnOnce() -> Vec<u8>) {
        match quiet(v) {
            Ok(v) => self.0.push(json!({"f": f, "ok": true, "v": v})),
            Err(_) => self.0.push(json!({"f": f, "ok": false, "v": []})),
        }
    }
    fn opt(&mut self, f: &str, v: impl FnOnce() -> Option<Vec<u8>>) {
        match quiet(v) {
            Ok(Some(v)) => self.0.push(json!({"f": f, "ok": true, "v": v})),
            Ok(None) => self.0.push(json!({"f": f, "ok": false, "v": []})),
            Err(_) => self.0.push(json!({"f": f, "ok": false, "v": [1, 2, 3]})),
        }
    }
}
fn le(n: usize) -> Vec<u8> {
    (n as u64).to_le_bytes().to_vec()
}

type Emit<'a> = &'a mut dyn FnMut(Value);
type R<T> = RingElement<T>;

fn binary<T: IntRing2k + Raw>(ty: &str, a: &[u8], b: &[u8], only: Option<&str>, emit: Emit) {
    let (x, y) = (T::of(a), T::of(b));
    let (rx, ry) = (R::from(x), R::from(y));
    let mut ev = |op: &str, f: &dyn Fn(&mut Outs)| {
        if only.is_none_or(|o| o == op) {
            let mut o = Outs(vec![]);
            f(&mut o);
            emit(json!({"ev": "op", "ty": ty, "k": T::K, "op": op, "a": a, "b": b, "n": 0, "ck": T::K, "outs": o.0}));
        }
    };
    macro_rules! forms {
        ($o:ident, $op:tt, $asg:tt) => {{
            $o.put("val", || (rx $op ry).0.raw());
            $o.put("ref", || (rx $op &ry).0.raw());
            $o.put("assign", || { let mut z = rx; z $asg ry; z.0.raw() });
            $o.put("assignref", || { let mut z = rx; z $asg &ry; z.0.raw() });
        }};
    }
    ev("add", &|o| {
        forms!(o, +, +=);
        o.put("wrapping", || x.wrapping_add(&y).raw());
        o.put("wrapping_assign", || { let mut z = x; z.wrapping_add_assign(&y); z.raw() });
    });
    ev("sub", &|o| {
        forms!(o, -, -=);
        o.put("wrapping", || x.wrapping_sub(&y).raw());
        o.put("wrapping_assign", || { let mut z = x; z.wrapping_sub_assign(&y); z.raw() });
    });
    ev("mul", &|o| {
        forms!(o, *, *=);
        o.put("inner", || (rx * y).0.raw());
        o.put("innerref", || (rx * &y).0.raw());
        o.put("assigninner", || { let mut z = rx; z *= y; z.0.raw() });
        o.put("assigninnerref", || { let mut z = rx; z *= &y; z.0.raw() });
        o.put("wrapping", || x.wrapping_mul(&y).raw());
        o.put("wrapping_assign", || { let mut z = x; z.wrapping_mul_assign(&y); z.raw() });
    });
    ev("xor", &|o| {
        forms!(o, ^, ^=);
        o.put("inner", || (x ^ y).raw());
        o.put("innerassign", || { let mut z = x; z ^= y; z.raw() });
    });
    ev("and", &|o| {
        o.put("val", || (rx & ry).0.raw());
        o.put("ref", || (rx & &ry).0.raw());
        o.put("assign", || { let mut z = rx; z &= ry; z.0.raw() });
        o.put("assignref", || { let mut z = rx; z &= &ry; z.0.raw() });
        o.put("inner", || (x & y).raw());
        o.put("innerassign", || { let mut z = x; z &= y; z.raw() });
    });
    ev("or", &|o| {
        forms!(o, |, |=);
        o.put("inner", || (x | y).raw());
        o.put("innerassign", || { let mut z = x; z |= y; z.raw() });
    });
    ev("cmp", &|o| {
        let c = |o: Option<std::cmp::Ordering>| o.map(|o| (o as i8 + 1) as u8).unwrap_or(9);
        o.put("ring", || vec![c(rx.partial_cmp(&ry))]);
        o.put("inner", || vec![c(x.partial_cmp(&y))]);
        o.put("lt", || vec![if rx < ry { 0 } else if rx == ry { 1 } else { 2 }]);
    });
}

fn unary<T: IntRing2k + Raw>(ty: &str, a: &[u8], emit: Emit)
where
    u64: AsPrimitive<Bit>,
{
    let x = T::of(a);
    let rx = R::from(x);
    let mut ev = |op: &str, ck: usize, f: &dyn Fn(&mut Outs)| {
        let mut o = Outs(vec![]);
        f(&mut o);
        emit(json!({"ev": "op", "ty": ty, "k": T::K, "op": op, "a": a, "b": [], "n": 0, "ck": ck, "outs": o.0}));
    };
    ev("neg", T::K, &|o| {
        o.put("op", || (-rx).0.raw());
        o.put("wrapping", || x.wrapping_neg().raw());
        o.put("inplace", || { let mut z = x; z.wrapping_neg_inplace(); z.raw() });
    });
    ev("not", T::K, &|o| {
        o.put("val", || (!rx).0.raw());
        o.put("ref", || (!&rx).0.raw());
        o.put("inner", || (!x).raw());
    });
    ev("bits", T::K, &|o| {
        o.put("ring", || le(rx.bits()));
        o.put("inner", || le(x.bits()));
    });
    ev("iszero", T::K, &|o| {
        o.put("ring", || vec![rx.is_zero() as u8]);
        o.put("inner", || vec![x.is_zero() as u8]);
        o.put("eq", || vec![(rx == R::<T>::zero()) as u8]);
    });
    ev("one", T::K, &|o| {
        o.put("one", || R::<T>::one().0.raw());
        o.put("inner", || T::one().raw());
        o.put("from", || T::from(true).raw());
        o.put("plus0", || (R::<T>::one() + R::<T>::from(T::from(false))).0.raw());
    });
    ev("cast", T::K, &|o| {
        o.put("write", || { let mut v = vec![]; x.write(&mut v).unwrap(); v });
        o.put("read", || T::from_reader(a).unwrap().raw());
        o.put("convert", || rx.convert().raw());
        o.put("slice", || R::<T>::convert_slice_rev(&[x])[0].0.raw());
        o.put("vec", || R::<T>::convert_vec_rev(vec![x])[0].0.raw());
    });
    macro_rules! wide { ($($u:ty, $k:literal);*) => {$(
        ev("cast", $k, &|o| o.put("cast_to_uint", || x.cast_to_uint::<$u>().raw()));
    )*}; }
    wide!(U256, 256; U320, 320; U384, 384; U512, 512; U1024, 1024);
    ev("fit", 64, &|o| o.opt("try_usize", || TryInto::<usize>::try_into(x).ok().map(le)));
}
/// conversions into T
fn into<T: IntRing2k + Raw>(ty: &str, a: &[u8], emit: Emit) {
    let mut ev = |op: &str, k: usize, f: &dyn Fn(&mut Outs)| {
        let mut o = Outs(vec![]);
        f(&mut o);
        let n = k.div_ceil(8);
        let mut aa = a.to_vec();
        aa.resize(n, 0);
        emit(json!({"ev": "op", "ty": ty, "k": k, "op": op, "a": aa, "b": [], "n": 0, "ck": T::K, "outs": o.0}));
    };
    if a.len() <= 8 {
        ev("fit", 64, &|o| o.opt("try_u64", || T::try_from(u64::of(a)).ok().map(|v| v.raw())));
    }
    if a.len() <= 16 {
        ev("fit", 128, &|o| o.opt("try_u128", || T::try_from(u128::of(a)).ok().map(|v| v.raw())));
    }
    macro_rules! wide { ($($u:ty, $k:literal);*) => {$(
        if a.len() <= $k / 8 {
            ev("cast", $k, &|o| o.put("cast_from_uint", || T::cast_from_uint(&<$u>::of(a)).raw()));
        }
    )*}; }
    wide!(U256, 256; U320, 320; U384, 384; U512, 512; U1024, 1024);
}
fn as_pair<T: IntRing2k + Raw + AsPrimitive<S>, S: IntRing2k + Raw>(ty: &str, a: &[u8], emit: Emit) {
    let mut o = Outs(vec![]);
    o.put("as", || AsPrimitive::<S>::as_(T::of(a)).raw());
    emit(json!({"ev": "op", "ty": ty, "k": T::K, "op": "cast", "a": a, "b": [], "n": 0, "ck": S::K, "outs": o.0}));
}
fn as_small<T: IntRing2k + Raw + AsPrimitive<Bit> + AsPrimitive<u8> + AsPrimitive<u16> + AsPrimitive<u32> + AsPrimitive<u64> + AsPrimitive<u128>>(ty: &str, a: &[u8], emit: Emit) {
    as_pair::<T, Bit>(ty, a, emit);
    as_pair::<T, u8>(ty, a, emit);
    as_pair::<T, u16>(ty, a, emit);
    as_pair::<T, u32>(ty, a, emit);
    as_pair::<T, u64>(ty, a, emit);
    as_pair::<T, u128>(ty, a, emit);
}
fn as_wide<T: IntRing2k + Raw + AsPrimitive<U256> + AsPrimitive<U512> + AsPrimitive<U1024> + AsPrimitive<U320> + AsPrimitive<U384>>(ty: &str, a: &[u8], emit: Emit) {
    as_pair::<T, U256>(ty, a, emit);
    as_pair::<T, U320>(ty, a, emit);
    as_pair::<T, U384>(ty, a, emit);
    as_pair::<T, U512>(ty, a, emit);
    as_pair::<T, U1024>(ty, a, emit);
}
fn shifts<T: IntRing2k + Raw>(ty: &str, a: &[u8], n: usize, emit: Emit) {
    let rx = R::from(T::of(a));
    let mut ev = |op: &str, f: &dyn Fn(&mut Outs)| {
        let mut o = Outs(vec![]);
        f(&mut o);
        emit(json!({"ev": "op", "ty": ty, "k": T::K, "op": op, "a": a, "b": [], "n": n.min(1 << 20), "ck": T::K, "outs": o.0}));
    };
    ev("shl", &|o| {
        o.put("val", || (rx << n).0.raw());
        o.put("assign", || { let mut z = rx; z <<= n; z.0.raw() });
        if n < T::K { o.put("inner", || (T::of(a) << n).raw()); }
    });
    ev("shr", &|o| {
        o.put("val", || (rx >> n).0.raw());
        o.put("assign", || { let mut z = rx; z >>= n; z.0.raw() });
        if n < T::K { o.put("inner", || (T::of(a) >> n).raw()); }
    });
    if n < T::K {
        ev("bit", &|o| o.put("get_bit", || rx.get_bit(n).0.raw()));
    }
}

/// operations only the wide integers have
fn wide2<const N: usize, const L: usize>(ty: &str, a: &[u8], b: &[u8], emit: Emit) {
    let (x, y) = (RUint::<N, L>::of(a), RUint::<N, L>::of(b));
    let mut ev = |op: &str, f: &dyn Fn(&mut Outs)| {
        let mut o = Outs(vec![]);
        f(&mut o);
        emit(json!({"ev": "op", "ty": ty, "k": N, "op": op, "a": a, "b": b, "n": 0, "ck": N, "outs": o.0}));
    };
    macro_rules! forms { ($o:ident, $op:tt, $asg:tt) => {{
        $o.put("op", || (x $op y).raw());
        $o.put("opassign", || { let mut z = x; z $asg y; z.raw() });
    }}; }
    ev("add", &|o| forms!(o, +, +=));
    ev("sub", &|o| forms!(o, -, -=));
    ev("xor", &|o| forms!(o, ^, ^=));
    ev("and", &|o| forms!(o, &, &=));
    ev("or", &|o| forms!(o, |, |=));
    ev("mul", &|o| o.put("op", || (x * y).raw()));
    ev("cmp", &|o| {
        o.put("ord", || vec![(x.cmp(&y) as i8 + 1) as u8]);
        o.put("eq", || vec![if x == y { 1 } else if x < y { 0 } else { 2 }]);
    });
    if !y.is_zero() {
        ev("divmod", &|o| {
            o.put("op", || [(x / y).raw(), (x % y).raw()].concat());
            o.put("assign", || { let (mut q, mut r) = (x, x); q /= y; r %= y; [q.raw(), r.raw()].concat() });
        });
    }
}
fn wide1<const N: usize, const L: usize>(ty: &str, a: &[u8], emit: Emit) {
    let x = RUint::<N, L>::of(a);
    let mut ev = |op: &str, ck: usize, f: &dyn Fn(&mut Outs)| {
        let mut o = Outs(vec![]);
        f(&mut o);
        emit(json!({"ev": "op", "ty": ty, "k": N, "op": op, "a": a, "b": [], "n": 0, "ck": ck, "outs": o.0}));
    };
    ev("neg", N, &|o| o.put("op", || (-x).raw()));
    ev("bits", N, &|o| o.put("bit_len", || le(x.bit_len())));
    ev("cast", N, &|o| {
        o.put("to_le_bytes_into", || { let mut v = vec![7; L * 8]; x.to_le_bytes_into(&mut v); v });
        o.put("from_le_bytes", || RUint::<N, L>::from_le_bytes(a).raw());
        o.put("biguint", || { let mut v = BigUint::from(x).to_bytes_le(); v.resize(L * 8, 0); v });
        o.put("bigint", || ark_ff::BigInt::<L>::from(x).to_bytes_le());
        o.put("frombigint", || RUint::<N, L>::from(ark_ff::BigInt::<L>::from(x)).raw());
        o.put("frombiguint", || RUint::<N, L>::try_from(&BigUint::from_bytes_le(a)).ok().unwrap().raw());
        o.put("as_self", || AsPrimitive::<RUint<N, L>>::as_(x).raw());
        o.put("default", || (x + RUint::<N, L>::default()).raw());
    });
    ev("cast", 64, &|o| o.put("to_u64_truncating", || x.to_u64_truncating().raw()));
    ev("fit", 64, &|o| o.opt("try_to_usize", || x.try_to_usize().map(le)));
    for l in 0..=L + 2 {
        let limbs: Vec<u64> = (0..l).map(|k| x.as_limbs().get(k).copied().unwrap_or(0xdead_beef + k as u64)).collect();
        let aa: Vec<u8> = limbs.iter().flat_map(|x| x.to_le_bytes()).collect();
        let mut o = Outs(vec![]);
        o.put("from_limbs_truncating", || RUint::<N, L>::from_limbs_truncating(&limbs).raw());
        emit(json!({"ev": "op", "ty": ty, "k": 64 * l, "op": "cast", "a": aa, "b": [], "n": 0, "ck": N, "outs": o.0}));
    }
    let mut big = a.to_vec();
    for extra in [1u8, 128] {
        big.push(extra);
        let mut o = Outs(vec![]);
        o.opt("frombiguint", || RUint::<N, L>::try_from(&BigUint::from_bytes_le(&big)).ok().map(|v| v.raw()));
        emit(json!({"ev": "op", "ty": ty, "k": 8 * big.len(), "op": "fit", "a": big, "b": [], "n": 0, "ck": N, "outs": o.0}));
    }
}
fn widen<const N: usize, const L: usize>(ty: &str, a: &[u8], n: usize, emit: Emit) {
    let x = RUint::<N, L>::of(a);
    let mut ev = |op: &str, b: &[u8], f: &dyn Fn(&mut Outs)| {
        let mut o = Outs(vec![]);
        f(&mut o);
        emit(json!({"ev": "op", "ty": ty, "k": N, "op": op, "a": a, "b": b, "n": n.min(1 << 20), "ck": N, "outs": o.0}));
    };
    ev("shl", &[], &|o| {
        o.put("op", || (x << n).raw());
        o.put("opassign", || { let mut z = x; z <<= n; z.raw() });
    });
    ev("shr", &[], &|o| {
        o.put("op", || (x >> n).raw());
        o.put("opassign", || { let mut z = x; z >>= n; z.raw() });
    });
    if n < N {
        ev("bit", &[], &|o| o.put("bit", || vec![x.bit(n) as u8]));
        for v in [0u8, 1] {
            ev("setbit", &[v], &|o| o.put("set_bit", || { let mut z = x; z.set_bit(n, v == 1); z.raw() }));
        }
    }
    ev("mask", &[], &|o| o.put("mask", || RUint::<N, L>::mask(n).raw()));
    if n <= N {
        ev("randbits", &[], &|o| o.put("random_bits", || {
            let mut g = rand_chacha::ChaCha12Rng::seed_from_u64(n as u64);
            // all bits below the length occur, none above
            (0..40).fold(RUint::<N, L>::default(), |acc, _| acc | RUint::<N, L>::random_bits(&mut g, n)).raw()
        }));
    }
}

fn field<F: FieldUint + Into<BigUint>>(ty: &str, a: &[u8], p: &[u8], emit: Emit)
where
    F::Uint: Raw,
{
    let k = F::Uint::BITS;
    let mut ev = |op: &str, kk: usize, a: &[u8], f: &dyn Fn(&mut Outs)| {
        let mut o = Outs(vec![]);
        f(&mut o);
        let q = (BigUint::from_bytes_le(a) / BigUint::from_bytes_le(p)).to_bytes_le();
        emit(json!({"ev": "op", "ty": ty, "k": kk, "op": op, "a": a, "b": p, "q": q, "n": 0, "ck": k, "outs": o.0}));
    };
    let raw = |x: &F| { let mut v = x.into_bigint().to_bytes_le(); v.resize(k / 8, 0); v };
    let u = F::Uint::of(a);
    ev("mod", k, a, &|o| {
        o.put("from_uint_reduced", || raw(&F::from_uint_reduced(&u)));
        o.put("ark", || raw(&F::from_le_bytes_mod_order(a)));
    });
    ev("const", k, a, &|o| o.put("modulus", || F::modulus_uint().raw()));
    let x = F::from_le_bytes_mod_order(a);
    let canon = raw(&x);
    ev("cast", k, &canon, &|o| {
        o.put("to_uint", || x.to_uint().raw());
        o.put("from_uint_unchecked", || raw(&F::from_uint_unchecked(&F::Uint::of(&canon))));
        o.put("from_uint_reduced", || raw(&F::from_uint_reduced(&F::Uint::of(&canon))));
    });
}

/// all right-hand operands for one left-hand one, 8 bits
fn table(a: u8, emit: Emit) {
    let mut col: std::collections::BTreeMap<(String, String), Vec<u64>> = Default::default();
    for b in 0..=255u8 {
        binary::<u8>("u8", &[a], &[b], None, &mut |e| {
            for o in e["outs"].as_array().unwrap() {
                let v = if o["ok"] == true { o["v"][0].as_u64().unwrap() } else { 999 };
                col.entry((e["op"].as_str().unwrap().to_string(), o["f"].as_str().unwrap().to_string())).or_default().push(v);
            }
        });
    }
    for ((op, f), v) in col {
        emit(json!({"ev": "tab", "ty": "u8", "k": 8, "op": op, "f": f, "a": a, "v": v}));
    }
}

fn one(ty: &str, j: &Value, emit: Emit) {
    let a = bytes(&j["a"]);
    let b = bytes(&j["b"]);
    let n = j["n"].as_u64().unwrap_or(0) as usize;
    let what = j["what"].as_str().unwrap();
    macro_rules! common { ($t:ty) => { match what {
        "binary" => binary::<$t>(ty, &a, &b, j["only"].as_str(), emit),
        "unary" => unary::<$t>(ty, &a, emit),
        "into" => into::<$t>(ty, &a, emit),
        "shift" => shifts::<$t>(ty, &a, n, emit),
        "as" => as_small::<$t>(ty, &a, emit),
        _ => {}
    }}; }
    macro_rules! wide { ($t:ty, $n:literal, $l:literal) => {{
        common!($t);
        match what {
            "binary" => wide2::<$n, $l>(ty, &a, &b, emit),
            "unary" => wide1::<$n, $l>(ty, &a, emit),
            "shift" => widen::<$n, $l>(ty, &a, n, emit),
            _ => {}
        }
    }}; }
    macro_rules! small { ($t:ty) => {{
        common!($t);
        if what == "as" {
            as_wide::<$t>(ty, &a, emit);
        }
    }}; }
    macro_rules! fld { ($f:ty) => { field::<$f>(ty, &a, &b, emit) }; }
    match ty {
        "bit" => small!(Bit),
        "u8" => small!(u8),
        "u16" => small!(u16),
        "u32" => small!(u32),
        "u64" => small!(u64),
        "u128" => small!(u128),
        "u256" => wide!(U256, 256, 4),
        "u320" => wide!(U320, 320, 5),
        "u384" => wide!(U384, 384, 6),
        "u512" => wide!(U512, 512, 8),
        "u1024" => wide!(U1024, 1024, 16),
        "bn254_fr" => fld!(ark_bn254::Fr),
        "bn254_fq" => fld!(ark_bn254::Fq),
        "bls12_377_fr" => fld!(ark_bls12_377::Fr),
        "bls12_377_fq" => fld!(ark_bls12_377::Fq),
        "bls12_381_fr" => fld!(ark_bls12_381::Fr),
        "bls12_381_fq" => fld!(ark_bls12_381::Fq),
        _ => panic!("{ty}"),
    }
}

fn main() {
    main_loop(|j, emit| match j["kind"].as_str().unwrap() {
        "table" => table(j["a"].as_u64().unwrap() as u8, emit),
        "op" => one(j["ty"].as_str().unwrap(), j, emit),
        _ => panic!(),
    });
}
