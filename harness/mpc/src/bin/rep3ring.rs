//! Executes three-party programs on replicated ring shares, conversions between rings, fields and bits, one-hot
//! vectors, lookup tables and sorting: `rep3ring JOBS OUT`. All values are recorded as little-endian bytes.
use ark_ec::{CurveGroup, PrimeGroup};
use ark_ff::{BigInteger, PrimeField};
use mpc_core::MpcState;
use mpc_core::lut::LookupTableProvider;
use mpc_core::protocols::rep3::{self, Rep3PointShare, Rep3PrimeFieldShare, Rep3State, Rep3UintShare, conversion::A2BType};
use mpc_core::protocols::rep3_ring::{
    self, Rep3RingShare, arithmetic, binary, casts, conversion,
    gadgets::{lut_curve, lut_field, ohv, sort},
    lut_curve::{PublicPrivateLut as CLut, Rep3CurveLookupTable},
    lut_field::{PublicPrivateLut as FLut, Rep3FieldLookupTable},
    ring::{bit::Bit, int_ring::IntRing2k, ring_impl::RingElement},
    yao,
};
use mpc_core::uint::{FieldUint, RUint, U512, UintBackend};
use num_traits::AsPrimitive;
use rand::distributions::{Distribution, Standard};
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha12Rng;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use vmpc::*;

type S<F> = Rep3PrimeFieldShare<F>;
type U<F> = Rep3UintShare<F>;
type G<C> = Rep3PointShare<C>;
type R<T> = Rep3RingShare<T>;
type E<T> = RingElement<T>;

trait Raw: IntRing2k {
    fn of(b: &[u8]) -> Self;
    fn raw(&self) -> Vec<u8>;
}
macro_rules! prim {
    ($($t:ty),*) => {$(
        impl Raw for $t {
            fn of(b: &[u8]) -> Self {
                b.iter().rev().fold(0u128, |x, d| (x << 8) | *d as u128) as $t
            }
            fn raw(&self) -> Vec<u8> {
                self.to_le_bytes().to_vec()
            }
        }
    )*};
}
prim!(u8, u16, u32, u64, u128);
impl Raw for Bit {
    fn of(b: &[u8]) -> Self {
        Bit::new(b.first().is_some_and(|x| x & 1 == 1))
    }
    fn raw(&self) -> Vec<u8> {
        vec![self.convert() as u8]
    }
}
type W512 = RUint<512, 8>;
impl Raw for W512 {
    fn of(b: &[u8]) -> Self {
        uof(b)
    }
    fn raw(&self) -> Vec<u8> {
        uraw(self)
    }
}
fn uof<X: UintBackend>(b: &[u8]) -> X {
    let l: Vec<u64> = b.chunks(8).map(|c| c.iter().rev().fold(0u64, |x, d| (x << 8) | *d as u64)).collect();
    X::from_limbs_truncating(&l)
}
fn uraw<X: UintBackend>(x: &X) -> Vec<u8> {
    x.as_limbs().iter().flat_map(|l| l.to_le_bytes()).collect()
}
fn fof<F: PrimeField>(b: &[u8]) -> F {
    F::from_le_bytes_mod_order(b)
}
fn fraw<F: PrimeField>(x: &F) -> Vec<u8> {
    let mut v = x.into_bigint().to_bytes_le();
    v.truncate((F::MODULUS_BIT_SIZE as usize).div_ceil(8));
    v
}

/// Points whose discrete logarithms can be recorded (or none, for the large curve).
trait Point: CurveGroup {
    fn at(b: &[u8]) -> Self;
    fn log(&self) -> Vec<u8>;
}
impl<P: ark_ec::short_weierstrass::SWCurveConfig> Point for ark_ec::short_weierstrass::Projective<P> {
    fn at(b: &[u8]) -> Self {
        let k = b.iter().rev().fold(0u64, |x, d| (x << 8) | *d as u64);
        Self::generator() * Self::ScalarField::from(k)
    }
    fn log(&self) -> Vec<u8> {
        let a = self as &dyn std::any::Any;
        let d = match (a.downcast_ref::<G257>(), a.downcast_ref::<GBig>()) {
            (Some(x), _) => x.dlog(),
            (_, Some(x)) => x.dlog(),
            _ => panic!("no discrete logarithms"),
        };
        vec![d as u8, (d >> 8) as u8, (d >> 16) as u8]
    }
}

#[derive(Clone)]
enum V<F: FieldUint, C: CurveGroup> {
    F(S<F>),
    U(U<F>),
    G(G<C>),
    /// ring share of a width, "r" (sum) or "x" (xor)
    R(&'static str, usize, Vec<u8>, Vec<u8>),
    /// recorded only
    N(&'static str, Vec<u8>, Vec<u8>),
}
impl<F: FieldUint, C: Point<ScalarField = F>> V<F, C> {
    fn rec(&self) -> (&'static str, usize, Value) {
        match self {
            V::F(x) => ("f", 0, json!([fraw(&x.a), fraw(&x.b)])),
            V::U(x) => ("u", 0, json!([uraw(&x.a), uraw(&x.b)])),
            V::G(x) => ("g", 0, json!([x.a.log(), x.b.log()])),
            V::R(t, k, a, b) => (t, *k, json!([a, b])),
            V::N(t, a, b) => (t, 0, json!([a, b])),
        }
    }
}
fn put<T: Raw, F: FieldUint, C: CurveGroup>(t: &'static str, x: &R<T>) -> V<F, C> {
    V::R(t, T::K, x.a.0.raw(), x.b.0.raw())
}

struct Party<F: FieldUint, C: CurveGroup> {
    v: BTreeMap<u64, V<F, C>>,
    s0: Rep3State,
    s1: Rep3State,
}

#[derive(Default, Clone)]
struct Out {
    ty: Vec<&'static str>,
    k: Vec<usize>,
    out: Vec<Value>,
    open: Vec<Vec<u8>>,
    msgs: usize,
}

/// A step of a program; all parties run the same.
struct Step<'a> {
    op: &'a str,
    k: usize,
    k2: usize,
    d: Vec<u64>,
    a: Vec<u64>,
    b: Vec<u64>,
    c: Vec<u64>,
    w: Vec<Vec<u8>>,
    f: u64,
}
impl<'a> Step<'a> {
    fn of(v: &'a Value) -> Self {
        Step {
            op: v["op"].as_str().unwrap(),
            k: v["k"].as_u64().unwrap_or(8) as usize,
            k2: v["k2"].as_u64().unwrap_or(8) as usize,
            d: ints(&v["d"]),
            a: ints(&v["a"]),
            b: ints(&v["b"]),
            c: ints(&v["c"]),
            w: v["w"].as_array().map(|a| a.iter().map(|x| ints(x).into_iter().map(|y| y as u8).collect()).collect()).unwrap_or_default(),
            f: v["f"].as_u64().unwrap_or(0),
        }
    }
}

type Res<F, C> = eyre::Result<(Vec<V<F, C>>, Vec<Vec<u8>>)>;

macro_rules! rings {
    ($k:expr, $T:ident => $body:expr) => {
        match $k {
            1 => { type $T = Bit; $body }
            8 => { type $T = u8; $body }
            16 => { type $T = u16; $body }
            32 => { type $T = u32; $body }
            64 => { type $T = u64; $body }
            128 => { type $T = u128; $body }
            k => panic!("no ring of {k} bits"),
        }
    };
}

fn getr<T: Raw, F: FieldUint, C: CurveGroup>(p: &Party<F, C>, r: u64) -> R<T> {
    match &p.v[&r] {
        V::R(_, k, a, b) if *k == T::K => R::new(T::of(a), T::of(b)),
        _ => panic!("register {r} holds no ring element of {} bits", T::K),
    }
}

/// Operations on one ring.
fn ring<T: Raw, F: FieldUint, C: Point<ScalarField = F>>(st: &Step, p: &mut Party<F, C>, net: &RecNet) -> Res<F, C>
where
    Standard: Distribution<T>,
{
    let va: Vec<R<T>> = st.a.iter().filter(|r| matches!(p.v[r], V::R(_, k, _, _) if k == T::K)).map(|r| getr::<T, F, C>(p, *r)).collect();
    let vb: Vec<R<T>> = st.b.iter().filter(|r| matches!(p.v[r], V::R(_, k, _, _) if k == T::K)).map(|r| getr::<T, F, C>(p, *r)).collect();
    let w: Vec<E<T>> = st.w.iter().map(|b| RingElement(T::of(b))).collect();
    let n = st.c.first().copied().unwrap_or(0) as usize;
    let id = p.s0.id;
    let s = &mut p.s0;
    let mut rs: Vec<R<T>> = vec![];
    let mut xs: Vec<R<T>> = vec![];
    let mut bits: Vec<R<Bit>> = vec![];
    let mut fs: Vec<S<F>> = vec![];
    let mut more: Vec<V<F, C>> = vec![];
    let mut open: Vec<Vec<u8>> = vec![];
    match st.op {
        "radd" => {
            let (x, y) = (va[0], vb[0]);
            rs.push(match st.f {
                0 => arithmetic::add(x, y),
                1 => {
                    let mut z = x;
                    arithmetic::add_assign(&mut z, y);
                    z
                }
                2 => x + y,
                3 => &x + &y,
                4 => {
                    let mut z = x;
                    z += y;
                    z
                }
                _ => {
                    let mut z = x;
                    z += &y;
                    z
                }
            })
        }
        "rsub" => {
            let (x, y) = (va[0], vb[0]);
            rs.push(match st.f {
                0 => arithmetic::sub(x, y),
                1 => {
                    let mut z = x;
                    arithmetic::sub_assign(&mut z, y);
                    z
                }
                2 => x - y,
                3 => &x - &y,
                4 => {
                    let mut z = x;
                    z -= y;
                    z
                }
                _ => {
                    let mut z = x;
                    z -= y;
                    z
                }
            })
        }
        "raddv" => {
            rs = va;
            arithmetic::add_vec_assign(&mut rs, &vb)
        }
        "rsubv" => {
            rs = va;
            arithmetic::sub_vec_assign(&mut rs, &vb)
        }
        "raddp" => rs.push(if st.f == 0 {
            arithmetic::add_public(va[0], w[0], id)
        } else {
            let mut z = va[0];
            arithmetic::add_assign_public(&mut z, w[0], id);
            z
        }),
        "rsubsp" => rs.push(arithmetic::sub_shared_by_public(va[0], w[0], id)),
        "rsubps" => rs.push(arithmetic::sub_public_by_shared(w[0], va[0], id)),
        "rmulp" => rs.push(match st.f {
            0 => arithmetic::mul_public(va[0], w[0]),
            1 => {
                let mut z = va[0];
                arithmetic::mul_assign_public(&mut z, w[0]);
                z
            }
            2 => va[0] * w[0],
            _ => &va[0] * w[0],
        }),
        "rneg" => rs.push(if st.f == 0 { arithmetic::neg(va[0]) } else { -va[0] }),
        "rdbl" => {
            let mut z = va[0];
            z.double();
            rs.push(z)
        }
        "rpromote" => {
            for x in w {
                rs.push(if st.f == 0 { arithmetic::promote_to_trivial_share(id, x) } else { R::promote_from_trivial(&x, id) })
            }
        }
        "raddmulp" => rs.push(arithmetic::add_mul_public(va[0], va[1], w[0])),
        "raddmul" => rs.push(arithmetic::add_mul(va[0], va[1], va[2], net, s)?),
        "rmul" => rs.push(arithmetic::mul(va[0], vb[0], net, s)?),
        "rmulv" => rs = arithmetic::mul_vec(&va, &vb, net, s)?,
        "rmull" => {
            let l = arithmetic::local_mul_vec(&va, &vb, s);
            rs = arithmetic::reshare_vec(l, net)?
        }
        "rmull1" => {
            // one product without and with resharing
            let l = vec![&va[0] * &vb[0]];
            let m = s.rngs.rand.masking_element::<E<T>>();
            rs = arithmetic::reshare_vec(l.into_iter().map(|x| x + m).collect(), net)?
        }
        "ropen" => open.push(arithmetic::open(va[0], net)?.0.raw()),
        "ropenv" => open = arithmetic::open_vec(&va, net)?.iter().map(|x| x.0.raw()).collect(),
        "rmulopen" => open.push(arithmetic::mul_open(va[0], vb[0], net, s)?.0.raw()),
        "rmulopenv" => open = arithmetic::mul_open_vec(&va, &vb, net, s)?.iter().map(|x| x.0.raw()).collect(),
        "rcmux" => rs.push(arithmetic::cmux(va[0], va[1], va[2], net, s)?),
        "rrand" => rs.push(arithmetic::rand(s)),
        "rpow" => rs.push(arithmetic::pow_public(va[0], w[0], net, s)?),
        "rpow2" => rs.push(arithmetic::pow_2_public(va[0], w[0])),
        "raxor" => rs.push(arithmetic::arithmetic_xor(va[0], vb[0], net, s)?),
        "raxorv" => rs = arithmetic::arithmetic_xor_many(&va, &vb, net, s)?,
        "rlt" => bits.push(if st.f == 0 { arithmetic::lt(va[0], vb[0], net, s)? } else { arithmetic::lt_public(va[0], w[0], net, s)? }),
        "rle" => bits.push(if st.f == 0 { arithmetic::le(va[0], vb[0], net, s)? } else { arithmetic::le_public(va[0], w[0], net, s)? }),
        "rgt" => bits.push(if st.f == 0 { arithmetic::gt(va[0], vb[0], net, s)? } else { arithmetic::gt_public(va[0], w[0], net, s)? }),
        "rge" => bits.push(if st.f == 0 { arithmetic::ge(va[0], vb[0], net, s)? } else { arithmetic::ge_public(va[0], w[0], net, s)? }),
        "req" => bits.push(if st.f == 0 { arithmetic::eq(va[0], vb[0], net, s)? } else { arithmetic::eq_public(va[0], w[0], net, s)? }),
        "rneq" => bits.push(if st.f == 0 { arithmetic::neq(va[0], vb[0], net, s)? } else { arithmetic::neq_public(va[0], w[0], net, s)? }),
        "riszero" => open.push(vec![arithmetic::is_zero(va[0], net, s)? as u8]),
        // ---- bits
        "xxor" => xs.push(match st.f {
            0 => binary::xor(&va[0], &vb[0]),
            1 => va[0] ^ vb[0],
            2 => &va[0] ^ &vb[0],
            _ => {
                let mut z = va[0];
                z ^= &vb[0];
                z
            }
        }),
        "xxorp" => xs.push(binary::xor_public(&va[0], &w[0], id)),
        "xor" => xs.push(binary::or(&va[0], &vb[0], net, s)?),
        "xorp" => xs.push(binary::or_public(&va[0], &w[0], id)),
        "xand" => xs.push(binary::and(&va[0], &vb[0], net, s)?),
        "xandv" => xs = binary::and_vec(&va, &vb, net, s)?,
        "xandp" => xs.push(if st.f == 0 { binary::and_with_public(&va[0], &w[0]) } else { &va[0] & &w[0] }),
        "xshr" => xs.push(if st.f == 0 { binary::shift_r_public(&va[0], w[0]) } else { &va[0] >> n }),
        "xshl" => xs.push(if st.f == 0 { binary::shift_l_public(&va[0], w[0]) } else { &va[0] << n }),
        "xnot" => xs.push(!va[0]),
        "xopen" => open.push(if st.f == 0 { binary::open(&va[0], net)?.0.raw() } else { arithmetic::open_bit(va[0], net)?.0.raw() }),
        "xpromote" => xs.push(binary::promote_to_trivial_share(id, &w[0])),
        "xcmux" => xs.push(binary::cmux(&va[0], &va[1], &va[2], net, s)?),
        "xortree" => xs.push(binary::or_tree(va, net, s)?),
        "xiszero" => bits.push(binary::is_zero(&va[0], net, s)?),
        "xget" => bits.push(va[0].get_bit(n)),
        // ---- conversions
        "a2b" => xs.push(match st.f {
            0 => conversion::a2b(va[0], net, s)?,
            1 => conversion::a2b_selector(va[0], net, s)?,
            2 => conversion::a2y2b(va[0], net, s)?,
            _ => conversion::a2y2b_streaming(va[0], net, s)?,
        }),
        "a2bv" => xs = conversion::a2b_many(&va, net, s)?,
        "b2a" => rs.push(match st.f {
            0 => conversion::b2a(&va[0], net, s)?,
            1 => conversion::b2a_selector(&va[0], net, s)?,
            2 => conversion::b2y2a(&va[0], net, s)?,
            _ => conversion::b2y2a_streaming(&va[0], net, s)?,
        }),
        "b2av" => rs = conversion::b2a_many(&va, net, s)?,
        "inj" => {
            rs = if st.f == 0 { vec![conversion::bit_inject(&va[0], net, s)?] } else { conversion::bit_inject_many(&va, net, s)? }
        }
        "injbit" => {
            let x: Vec<R<Bit>> = st.a.iter().map(|r| getr::<Bit, F, C>(p, *r)).collect();
            let s = &mut p.s0;
            rs = if st.f == 0 { vec![conversion::bit_inject_from_bit(&x[0], net, s)?] } else { conversion::bit_inject_from_bits_many(&x, net, s)? }
        }
        "a2y2a" => {
            let delta = s.rngs.generate_random_garbler_delta(id);
            let y = if st.f & 1 == 0 { conversion::a2y(va[0], delta, net, s)? } else { conversion::a2y_streaming(va[0], delta, net, s)? };
            rs.push(if st.f & 2 == 0 { conversion::y2a(y, delta, net, s)? } else { conversion::y2a_streaming(y, delta, net, s)? })
        }
        "b2y2b" => {
            let delta = s.rngs.generate_random_garbler_delta(id);
            xs = if st.f == 0 {
                let y = conversion::b2y(&va[0], delta, net, s)?;
                vec![conversion::y2b(y, net, s)?]
            } else {
                let y = conversion::b2y_many(&va, delta, net, s)?;
                conversion::y2b_many(y, net, s)?
            }
        }
        // ---- fields
        "r2f" => {
            fs = match st.f {
                0 => vec![casts::ring_to_field_selector(va[0], net, s)?],
                1 => vec![casts::ring_to_field_a2b(va[0], net, s)?],
                2 => casts::ring_to_field_a2b_many(&va, net, s)?,
                _ => yao::ring_to_field_many(&va, net, s)?,
            }
        }
        "r2fbig" => {
            fs = if st.f == 0 { vec![casts::ring_to_field_a2b_big_ring(va[0], net, s)?] } else { casts::ring_to_field_a2b_big_ring_many(&va, net, s)? }
        }
        "f2r" => {
            let x: Vec<S<F>> = st.a.iter().map(|r| getf(p, *r)).collect();
            let s = &mut p.s0;
            rs = match st.f {
                0 => vec![casts::field_to_ring_selector(x[0], net, s)?],
                1 => vec![casts::field_to_ring_a2b(x[0], net, s)?],
                2 => casts::field_to_ring_a2b_many(&x, net, s)?,
                _ => yao::field_to_ring_many(&x, net, s)?,
            }
        }
        "decomp" => {
            let x: Vec<S<F>> = st.a.iter().map(|r| getf(p, *r)).collect();
            let s = &mut p.s0;
            rs = if st.f == 0 {
                yao::decompose_field_to_rings(x[0], net, s, n, st.c[1] as usize)?
            } else {
                yao::decompose_field_to_rings_many(&x, net, s, n, st.c[1] as usize)?
            }
        }
        // ---- division
        "divp2" => rs = if st.f == 0 { vec![yao::ring_div_power_2(va[0], net, s, n)?] } else { yao::ring_div_power_2_many(&va, net, s, n)? },
        "div" => rs = if st.f == 0 { vec![yao::ring_div(va[0], vb[0], net, s)?] } else { yao::ring_div_many(&va, &vb, net, s)? },
        "divsp" => rs = if st.f == 0 { vec![yao::ring_div_by_public(va[0], w[0], net, s)?] } else { yao::ring_div_by_public_many(&va, &w, net, s)? },
        "divps" => rs = if st.f == 0 { vec![yao::ring_div_by_shared(w[0], vb[0], net, s)?] } else { yao::ring_div_by_shared_many(&w, &vb, net, s)? },
        "divlimbs" => {
            let d: U512 = uof(&st.w[0]);
            fs = if st.f == 0 {
                let (q, r) = yao::ring_div_by_public_to_limbs(va[0], &d, st.c[1] as usize, n, net, s)?;
                vec![q, r]
            } else {
                yao::ring_div_by_public_to_limbs_many(&va, &d, st.c[1] as usize, n, net, s)?
            }
        }
        // ---- one-hot vectors and tables
        "ohv" => bits = ohv::ohv(n, va[0], net, s)?,
        "randohv" => {
            let (r, e) = ohv::rand_ohv::<T, _>(n, net, s)?;
            more.push(put("x", &r));
            more.extend(e.iter().map(|x| put("x", x)));
        }
        x => panic!("unknown operation {x}"),
    }
    let mut out: Vec<V<F, C>> = rs.iter().map(|x| put("r", x)).collect();
    out.extend(xs.iter().map(|x| put("x", x)));
    out.extend(bits.iter().map(|x| put("x", x)));
    out.extend(fs.into_iter().map(V::F));
    out.extend(more);
    Ok((out, open))
}

fn getf<F: FieldUint, C: CurveGroup>(p: &Party<F, C>, r: u64) -> S<F> {
    match &p.v[&r] {
        V::F(x) => *x,
        _ => panic!("register {r} holds no field element"),
    }
}
fn getg<F: FieldUint, C: CurveGroup>(p: &Party<F, C>, r: u64) -> G<C> {
    match &p.v[&r] {
        V::G(x) => *x,
        _ => panic!("register {r} holds no point"),
    }
}
fn getu<F: FieldUint, C: CurveGroup>(p: &Party<F, C>, r: u64) -> U<F> {
    match &p.v[&r] {
        V::U(x) => *x,
        _ => panic!("register {r} holds no bit string"),
    }
}

fn cast<T: Raw + AsPrimitive<X>, X: Raw, F: FieldUint, C: Point<ScalarField = F>>(st: &Step, p: &mut Party<F, C>, net: &RecNet) -> Res<F, C>
where
    Standard: Distribution<T> + Distribution<X>,
{
    let v: Vec<R<T>> = st.a.iter().map(|r| getr::<T, F, C>(p, *r)).collect();
    let s = &mut p.s0;
    let out: Vec<R<X>> = match st.f {
        0 => vec![casts::ring_cast_selector(v[0], net, s)?],
        1 => vec![casts::cast_a2b(v[0], net, s)?],
        2 => vec![casts::cast_gc(v[0], net, s)?],
        3 => vec![casts::downcast(v[0])],
        4 => vec![casts::upcast_a2b(v[0], net, s)?],
        _ => yao::upcast_many(&v, net, s)?,
    };
    Ok((out.iter().map(|x| put("r", x)).collect(), vec![]))
}

/// Tables of field elements, read and written at an index shared as bits of a ring (gadgets).
fn table<T: Raw, F: FieldUint, C: Point<ScalarField = F>>(st: &Step, p: &mut Party<F, C>, net0: &RecNet, net1: &RecNet) -> Res<F, C>
where
    Standard: Distribution<T>,
{
    let idx: R<T> = getr(p, st.a[0]);
    let lut: Vec<F> = st.w.iter().map(|b| fof(b)).collect();
    let fsh: Vec<S<F>> = st.b.iter().filter_map(|r| if let V::F(x) = &p.v[r] { Some(*x) } else { None }).collect();
    let gsh: Vec<G<C>> = st.b.iter().filter_map(|r| if let V::G(x) = &p.v[r] { Some(*x) } else { None }).collect();
    let mut out: Vec<V<F, C>> = vec![];
    match st.op {
        "tread" => out.push(V::U(lut_field::read_public_lut(&lut, idx, net0, &mut p.s0)?)),
        "treadlow" => {
            let x = lut_field::read_public_lut_low_depth(&lut, idx, net0, net1, &mut p.s0, &mut p.s1)?;
            out.push(V::N("nu", uraw(&x), vec![]))
        }
        "treadsh" => {
            let x = lut_field::read_shared_lut(&fsh, idx, net0, &mut p.s0)?;
            out.push(V::N("nf", fraw(&x), vec![]))
        }
        "twrite" => {
            let val = getf(p, st.a[1]);
            let mut l = fsh;
            lut_field::write_lut(&val, &mut l, idx, net0, &mut p.s0)?;
            out = l.into_iter().map(V::F).collect()
        }
        "tmulti" => {
            let luts = cut(&lut, &st.c);
            let x = lut_field::read_multiple_public_lut_low_depth(&luts, idx, net0, net1, &mut p.s0, &mut p.s1)?;
            out = x.iter().map(|x| V::N("nu", uraw(x), vec![])).collect()
        }
        "gtread" => {
            let l: Vec<C> = st.w.iter().map(|b| C::at(b)).collect();
            out.push(V::G(lut_curve::read_public_lut(&l, idx, net0, &mut p.s0)?))
        }
        "gtmulti" => {
            let l: Vec<C> = st.w.iter().map(|b| C::at(b)).collect();
            out = lut_curve::read_public_luts(&cut(&l, &st.c), idx, net0, &mut p.s0)?.into_iter().map(V::G).collect()
        }
        "gtreadsh" => {
            let x = lut_curve::read_shared_lut(&gsh, idx, net0, &mut p.s0)?;
            out.push(V::N("ng", x.log(), vec![]))
        }
        "gtwrite" => {
            let val = getg(p, st.a[1]);
            let mut l = gsh;
            lut_curve::write_lut(&val, &mut l, idx, net0, &mut p.s0)?;
            out = l.into_iter().map(V::G).collect()
        }
        // provider: binary index, binary result
        _ => panic!("unknown table operation"),
    }
    Ok((out, vec![]))
}

/// Splits a list into parts of the given lengths.
fn cut<X: Clone>(v: &[X], lens: &[u64]) -> Vec<Vec<X>> {
    let mut o = 0;
    lens.iter()
        .map(|l| {
            o += *l as usize;
            v[o - *l as usize..o].to_vec()
        })
        .collect()
}

fn other<F: FieldUint, C: Point<ScalarField = F>>(st: &Step, p: &mut Party<F, C>, net0: &RecNet, net1: &RecNet) -> Res<F, C>
where
    C::BaseField: FieldUint,
{
    let mut out: Vec<V<F, C>> = vec![];
    let mut open = vec![];
    let lut: Vec<F> = st.w.iter().map(|b| fof(b)).collect();
    let fb: Vec<S<F>> = st.b.iter().filter_map(|r| if let V::F(x) = &p.v[r] { Some(*x) } else { None }).collect();
    let gb: Vec<G<C>> = st.b.iter().filter_map(|r| if let V::G(x) = &p.v[r] { Some(*x) } else { None }).collect();
    let n = st.c.first().copied().unwrap_or(0) as usize;
    match st.op {
        "bits2f" => {
            let x: Vec<R<Bit>> = st.a.iter().map(|r| getr::<Bit, F, C>(p, *r)).collect();
            out = conversion::bit_inject_from_bits_to_field_many::<F, _>(&x, net0, &mut p.s0)?.into_iter().map(V::F).collect()
        }
        "divfq" => {
            let d: U512 = uof(&st.w[0]);
            macro_rules! go {
                ($t:ty) => {{
                    let v: Vec<R<$t>> = st.a.iter().map(|r| getr::<$t, F, C>(p, *r)).collect();
                    if st.f == 0 {
                        let (q, r) = yao::ring_div_by_public_to_fr_limbs_and_fq::<$t, _, F, C::BaseField>(v[0], st.c[1] as usize, &d, n, net0, &mut p.s0)?;
                        (q, vec![r])
                    } else {
                        yao::ring_div_by_public_to_fr_limbs_and_fq_many::<$t, _, F, C::BaseField>(&v, st.c[1] as usize, &d, n, net0, &mut p.s0)?
                    }
                }};
            }
            let (q, r) = match st.k {
                16 => go!(u16),
                32 => go!(u32),
                512 => go!(W512),
                _ => panic!("no such width"),
            };
            out = q.into_iter().map(V::F).collect();
            out.extend(r.iter().map(|x| V::N("h", fraw(&x.a), fraw(&x.b))));
        }
        "divlimbsw" => {
            let d: U512 = uof(&st.w[0]);
            let v: Vec<R<W512>> = st.a.iter().map(|r| getr::<W512, F, C>(p, *r)).collect();
            out = yao::ring_div_by_public_to_limbs_many::<W512, _, F>(&v, &d, st.c[1] as usize, n, net0, &mut p.s0)?.into_iter().map(V::F).collect()
        }
        // ---- table providers
        "plread" | "plwrite" => {
            let mut t = Rep3FieldLookupTable::<F>::new();
            // public table in w, or the shared registers of b
            let mut l = if st.w.is_empty() {
                <Rep3FieldLookupTable<F> as LookupTableProvider<F>>::init_private(&t, fb)
            } else {
                <Rep3FieldLookupTable<F> as LookupTableProvider<F>>::init_public(&t, lut)
            };
            let idx = getf(p, st.a[0]);
            if st.op == "plread" {
                out.push(V::F(t.get_from_lut(idx, &l, net0, net1, &mut p.s0, &mut p.s1)?))
            } else {
                let val = getf(p, st.a[1]);
                t.write_to_lut(idx, val, &mut l, net0, net1, &mut p.s0, &mut p.s1)?;
                out = match l {
                    FLut::Shared(v) => v.into_iter().map(V::F).collect(),
                    FLut::Public(_) => panic!("written table is public"),
                }
            }
        }
        "plmulti" => {
            let idx = getf(p, st.a[0]);
            let r = Rep3FieldLookupTable::<F>::get_from_public_luts(idx, &cut(&lut, &st.c), net0, net1, &mut p.s0, &mut p.s1)?;
            out = r.into_iter().map(V::F).collect()
        }
        "plbin" => {
            let idx = getu(p, st.a[0]);
            let t = Rep3FieldLookupTable::<F>::new();
            let l = <Rep3FieldLookupTable<F> as LookupTableProvider<F>>::init_public(&t, lut);
            macro_rules! go {
                ($t:ty) => {
                    Rep3FieldLookupTable::<F>::get_from_public_lut_no_b2a_conversion::<$t, _>(idx, &l, net0, net1, &mut p.s0, &mut p.s1)?
                };
            }
            out.push(V::U(match st.k {
                8 => go!(u8),
                16 => go!(u16),
                _ => go!(u32),
            }))
        }
        "plohv" => {
            let idx = getf(p, st.a[0]);
            let e = if st.f == 0 {
                Rep3FieldLookupTable::<F>::ohv_from_index(idx, n, net0, net1, &mut p.s0, &mut p.s1)?
            } else {
                Rep3CurveLookupTable::<C>::ohv_from_index(idx, n, net0, net1, &mut p.s0, &mut p.s1)?
            };
            out = e.into_iter().map(V::F).collect()
        }
        "plwohv" => {
            // table b (length n of it), one-hot vector the rest of b
            let mut l = fb[..n].to_vec();
            let val = getf(p, st.a[0]);
            if st.f == 0 {
                Rep3FieldLookupTable::<F>::write_to_shared_lut_from_ohv(&fb[n..], val, &mut l, net0, &mut p.s0)?
            } else {
                lut_field::write_lut_from_ohv(&val, &mut l, &fb[n..], net0, &mut p.s0)?
            }
            out = l.into_iter().map(V::F).collect()
        }
        "gplread" | "gplwrite" => {
            let mut t = Rep3CurveLookupTable::<C>::new();
            let mut l = if st.w.is_empty() {
                <Rep3CurveLookupTable<C> as LookupTableProvider<C>>::init_private(&t, gb)
            } else {
                <Rep3CurveLookupTable<C> as LookupTableProvider<C>>::init_public(&t, st.w.iter().map(|b| C::at(b)).collect())
            };
            let idx = getf(p, st.a[0]);
            if st.op == "gplread" {
                out.push(V::G(t.get_from_lut(idx, &l, net0, net1, &mut p.s0, &mut p.s1)?))
            } else {
                let val = getg(p, st.a[1]);
                t.write_to_lut(idx, val, &mut l, net0, net1, &mut p.s0, &mut p.s1)?;
                out = match l {
                    CLut::Shared(v) => v.into_iter().map(V::G).collect(),
                    CLut::Public(_) => panic!("written table is public"),
                }
            }
        }
        "gplmulti" => {
            let idx = getf(p, st.a[0]);
            let l: Vec<C> = st.w.iter().map(|b| C::at(b)).collect();
            let r = Rep3CurveLookupTable::<C>::get_from_public_luts(idx, &cut(&l, &st.c), net0, &mut p.s0)?;
            out = r.into_iter().map(V::G).collect()
        }
        "gplwohv" => {
            let mut l = gb.clone();
            let val = getg(p, st.a[0]);
            if st.f == 0 {
                Rep3CurveLookupTable::<C>::write_to_shared_lut_from_ohv(&fb, val, &mut l, net0, &mut p.s0)?
            } else {
                lut_curve::write_lut_from_ohv(&val, &mut l, &fb, net0, &mut p.s0)?
            }
            out = l.into_iter().map(V::G).collect()
        }
        // ---- sorting: private values a, public values w, bits c[0]
        "sort" => {
            let v: Vec<S<F>> = st.a.iter().map(|r| getf(p, *r)).collect();
            out = sort::radix_sort_fields(v, lut, n, net0, net1, &mut p.s0, &mut p.s1)?.into_iter().map(V::F).collect()
        }
        // columns in b, one after the other; order in c[1..]
        "sortby" => {
            let v: Vec<S<F>> = st.a.iter().map(|r| getf(p, *r)).collect();
            let order: Vec<bool> = st.c[1..].iter().map(|x| *x == 1).collect();
            let cols: Vec<&[S<F>]> = if order.is_empty() { vec![] } else { fb.chunks(order.len()).collect() };
            let r = sort::radix_sort_fields_vec_by(&v, &lut, &order, cols, n, net0, net1, &mut p.s0, &mut p.s1)?;
            out = r.into_iter().flatten().map(V::F).collect()
        }
        "fopen" => {
            let v: Vec<S<F>> = st.a.iter().map(|r| getf(p, *r)).collect();
            open = rep3::arithmetic::open_vec(&v, net0)?.iter().map(fraw).collect()
        }
        x => panic!("unknown operation {x}"),
    }
    Ok((out, open))
}

fn step<F: FieldUint, C: Point<ScalarField = F>>(p: &mut Party<F, C>, st: &Step, dealt: &[V<F, C>], net0: &RecNet, net1: &RecNet) -> eyre::Result<Out>
where
    C::BaseField: FieldUint,
{
    let (out, open): (Vec<V<F, C>>, Vec<Vec<u8>>) = match st.op {
        "rinput" | "xinput" | "finput" | "ginput" | "uinput" => (dealt.to_vec(), vec![]),
        "cast" => {
            macro_rules! to {
                ($t:ty) => {
                    rings!(st.k2, X => cast::<$t, X, F, C>(st, p, net0)?)
                };
            }
            match st.k {
                1 => to!(Bit),
                8 => to!(u8),
                16 => to!(u16),
                32 => to!(u32),
                64 => to!(u64),
                128 => to!(u128),
                k => panic!("no ring of {k} bits"),
            }
        }
        "tread" | "treadlow" | "treadsh" | "twrite" | "tmulti" | "gtread" | "gtmulti" | "gtreadsh" | "gtwrite" => match st.k {
            1 => table::<Bit, F, C>(st, p, net0, net1)?,
            8 => table::<u8, F, C>(st, p, net0, net1)?,
            16 => table::<u16, F, C>(st, p, net0, net1)?,
            32 => table::<u32, F, C>(st, p, net0, net1)?,
            k => panic!("no ring of {k} bits"),
        },
        o if o.starts_with("pl") || o.starts_with("gpl") || o.starts_with("sort") || ["bits2f", "divfq", "divlimbsw", "fopen"].contains(&o) => other(st, p, net0, net1)?,
        _ => rings!(st.k, T => ring::<T, F, C>(st, p, net0)?),
    };
    let mut o = Out { open, ..Default::default() };
    for v in &out {
        let (t, k, x) = v.rec();
        o.ty.push(t);
        o.k.push(k);
        o.out.push(x);
    }
    for (d, v) in st.d.iter().zip(out) {
        p.v.insert(*d, v);
    }
    Ok(o)
}

fn deal<F: FieldUint, C: Point<ScalarField = F>>(st: &Step, rng: &mut ChaCha12Rng) -> [Vec<V<F, C>>; 3] {
    let mut out: [Vec<V<F, C>>; 3] = Default::default();
    fn ring<T: Raw, F: FieldUint, C: CurveGroup>(st: &Step, rng: &mut ChaCha12Rng, out: &mut [Vec<V<F, C>>; 3])
    where
        Standard: Distribution<T>,
    {
        let v: Vec<E<T>> = st.w.iter().map(|b| RingElement(T::of(b))).collect();
        let x = st.op == "xinput";
        let t = if x { "x" } else { "r" };
        let sh: [Vec<R<T>>; 3] = match (x, st.f) {
            (false, 0) => rep3_ring::share_ring_elements(&v, rng),
            (true, 0) => rep3_ring::share_ring_elements_binary(&v, rng),
            (true, 2) => {
                // components of a single bit
                let mut r: [Vec<R<T>>; 3] = Default::default();
                for y in v {
                    let (a, b) = (T::from(rng.r#gen::<bool>()), T::from(rng.r#gen::<bool>()));
                    let c = y.0 ^ a ^ b;
                    r[0].push(R::new(a, c));
                    r[1].push(R::new(b, a));
                    r[2].push(R::new(c, b));
                }
                r
            }
            _ => {
                let mut r: [Vec<R<T>>; 3] = Default::default();
                for y in v {
                    let s = if x { rep3_ring::share_ring_element_binary(y, rng) } else { rep3_ring::share_ring_element(y, rng) };
                    for i in 0..3 {
                        r[i].push(s[i]);
                    }
                }
                r
            }
        };
        for i in 0..3 {
            out[i].extend(sh[i].iter().map(|s| put(t, s)));
        }
    }
    match st.op {
        "rinput" | "xinput" => {
            if st.k == 512 {
                ring::<W512, F, C>(st, rng, &mut out)
            } else {
                rings!(st.k, T => ring::<T, F, C>(st, rng, &mut out))
            }
        }
        "finput" => {
            let v: Vec<F> = st.w.iter().map(|b| fof(b)).collect();
            let sh = rep3::share_field_elements(&v, rng);
            for i in 0..3 {
                out[i] = sh[i].iter().map(|s| V::F(*s)).collect();
            }
        }
        "ginput" => {
            let v: Vec<C> = st.w.iter().map(|b| C::at(b)).collect();
            let sh = rep3::share_curve_points(&v, rng);
            for i in 0..3 {
                out[i] = sh[i].iter().map(|s| V::G(*s)).collect();
            }
        }
        "uinput" => {
            for b in &st.w {
                let x: F::Uint = uof(b);
                let (r, t) = (F::Uint::random_bits(rng, F::MODULUS_BIT_SIZE as usize), F::Uint::random_bits(rng, F::MODULUS_BIT_SIZE as usize));
                let c = x ^ r ^ t;
                for (o, s) in out.iter_mut().zip([U::new(r, c), U::new(t, r), U::new(c, t)]) {
                    o.push(V::U(s));
                }
            }
        }
        _ => {}
    }
    out
}

fn prog<F: FieldUint, C: Point<ScalarField = F>>(job: &Value, emit: &mut dyn FnMut(Value))
where
    C::BaseField: FieldUint,
{
    let raw = job["prog"].as_array().unwrap();
    let steps: Vec<Step> = raw.iter().map(Step::of).collect();
    let mut rng = ChaCha12Rng::seed_from_u64(job["seed"].as_u64().unwrap_or(1));
    let dealt: Vec<[Vec<V<F, C>>; 3]> = steps.iter().map(|st| deal(st, &mut rng)).collect();
    let (mut n0, n1) = (RecNet::mesh(3, false), RecNet::mesh(3, false));
    if !job["alter"].is_null() {
        let d = job["alter"]["delta"].as_i64().unwrap();
        let f = move |b: &[u8]| {
            recount::<F>(b, d, F::from(0u64))
                .or_else(|| recount::<u8>(b, d, 0))
                .or_else(|| recount::<u16>(b, d, 0))
                .or_else(|| recount::<u32>(b, d, 0))
                .or_else(|| recount::<u64>(b, d, 0))
        };
        RecNet::alter(&mut n0, &job["alter"], Box::new(f));
    }
    let yao = job["a2b"].as_str() == Some("yao");
    let nets: Vec<(&RecNet, &RecNet)> = n0.iter().zip(&n1).collect();
    let res = parties(nets, |i, (net0, net1): (&RecNet, &RecNet)| -> eyre::Result<Vec<Result<Out, String>>> {
        let mut s0 = Rep3State::new(net0, if yao { A2BType::Yao } else { A2BType::Direct })?;
        let s1 = s0.fork(1)?;
        let mut p = Party::<F, C> { v: BTreeMap::new(), s0, s1 };
        let mut v = vec![];
        for (k, st) in steps.iter().enumerate() {
            if k + 1 == steps.len() {
                net0.arm();
            }
            let m = net0.sent_msgs() + net1.sent_msgs();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step(&mut p, st, &dealt[k][i], net0, net1)));
            let failed = !matches!(r, Ok(Ok(_)));
            v.push(match r {
                Ok(Ok(mut o)) => {
                    o.msgs = net0.sent_msgs() + net1.sent_msgs() - m;
                    Ok(o)
                }
                Ok(Err(e)) => Err(format!("{e:#}")),
                Err(e) => Err(format!(
                    "panic: {}",
                    e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
                )),
            });
            if failed {
                break;
            }
        }
        Ok(v)
    });
    if !job["alter"].is_null() {
        let (altered, read) = RecNet::altered(&n0, &job["alter"]);
        let to = res[job["alter"]["to"].as_u64().unwrap() as usize].as_ref().ok().and_then(|r| r.get(steps.len() - 1));
        emit(json!({"ev": "count", "ty": "ring", "what": steps.last().unwrap().op, "altered": altered, "read": read,
            "ok": matches!(to, Some(Ok(_))), "why": match to { Some(Err(e)) => e.clone(), _ => String::new() }}));
        return;
    }
    let fatal = res.iter().enumerate().filter_map(|(i, r)| r.as_ref().err().map(|e| format!("party {i}: {e}"))).next();
    let modulus = |mut v: Vec<u8>, bits: u32| {
        v.truncate((bits as usize).div_ceil(8));
        v
    };
    let p = modulus(F::MODULUS.to_bytes_le(), F::MODULUS_BIT_SIZE);
    let q = modulus(<C::BaseField as PrimeField>::MODULUS.to_bytes_le(), <C::BaseField as PrimeField>::MODULUS_BIT_SIZE);
    emit(json!({"ev": "start", "p": p, "q": q,
        "fatal": fatal.clone().unwrap_or_default()}));
    if fatal.is_some() {
        return;
    }
    let ps: Vec<_> = res.into_iter().map(|r| r.unwrap()).collect();
    for (k, st) in steps.iter().enumerate() {
        if ps.iter().all(|v| v.len() <= k) {
            break;
        }
        let at: Vec<Option<&Result<Out, String>>> = ps.iter().map(|v| v.get(k)).collect();
        let ok: Vec<bool> = at.iter().map(|x| matches!(x, Some(Ok(_)))).collect();
        let o: Vec<Out> = at.iter().map(|x| match x { Some(Ok(o)) => o.clone(), _ => Out::default() }).collect();
        let why: Vec<String> = at.iter().filter_map(|x| match x { Some(Err(e)) => Some(e.clone()), _ => None }).take(3).collect();
        let t = o.iter().max_by_key(|o| o.ty.len()).unwrap();
        emit(json!({"ev": "step", "op": st.op, "k": st.k, "k2": st.k2, "d": st.d, "a": st.a, "b": st.b, "c": st.c, "w": st.w, "f": st.f,
            "ok": ok, "ty": t.ty, "tk": t.k, "out": o.iter().map(|o| o.out.clone()).collect::<Vec<_>>(),
            "open": o.iter().map(|o| o.open.clone()).collect::<Vec<_>>(), "msgs": o.iter().map(|o| o.msgs).sum::<usize>(), "why": why}));
    }
    emit(json!({"ev": "end", "unread": n0.iter().chain(&n1).map(|n| n.unread()).sum::<usize>()}));
}

fn main() {
    main_loop(|job, emit| match job["p"].as_u64().unwrap() {
        257 => prog::<F257, G257>(job, emit),
        40961 => prog::<F40961, GBig>(job, emit),
        0 => prog::<ark_bn254::Fr, ark_bn254::G1Projective>(job, emit),
        p => panic!("no field {p}"),
    });
}
