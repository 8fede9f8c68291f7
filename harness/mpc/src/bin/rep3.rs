//! Executes replicated three-party programs: `rep3 JOBS OUT`. Kinds of jobs: "prog" (three parties run a program on
//! typed shared registers, every step is recorded with the shares of all parties), "hist" (view frequencies),
//! "share" (dealing and reconstruction), "fresh" (correlated randomness), "bridge" (replicated to Shamir).
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{PrimeField, Zero};
use ark_serialize::CanonicalDeserialize;
use mpc_core::MpcState;
use mpc_core::protocols::rep3::{
    self, Rep3PointShare, Rep3PrimeFieldShare, Rep3State, Rep3UintShare, arithmetic, binary,
    conversion::{self, A2BType},
    gadgets, pointshare, poly, yao,
};
use mpc_core::uint::{FieldUint, UintBackend};
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};
use vmpc::*;

type S<F> = Rep3PrimeFieldShare<F>;
type U<F> = Rep3UintShare<F>;
type G<C> = Rep3PointShare<C>;

trait Group<F: FieldUint>: Dlog<ScalarField = F> {
    fn base() -> u64;
    fn msm(points: &[u64], sc: &[S<F>]) -> G<Self>;
    fn is_zero(x: &[G<Self>], many: bool, net: &RecNet, state: &mut Rep3State) -> eyre::Result<Vec<(bool, bool)>>;
    fn coords(x: &[G<Self>], many: bool, net: &RecNet, state: &mut Rep3State) -> eyre::Result<Vec<(u64, u64)>>;
}
macro_rules! group {
    ($g:ty, $f:ty) => {
        impl Group<$f> for $g {
            fn base() -> u64 {
                small(&-<<$g as CurveGroup>::BaseField as ark_ff::Field>::ONE) + 1
            }
            fn msm(points: &[u64], sc: &[S<$f>]) -> G<Self> {
                let p: Vec<_> = points.iter().map(|k| <$g>::of(*k).into_affine()).collect();
                pointshare::msm_public_points::<$g, _>(&p, sc)
            }
            fn is_zero(x: &[G<Self>], many: bool, net: &RecNet, state: &mut Rep3State) -> eyre::Result<Vec<(bool, bool)>> {
                if many { pointshare::is_zero_many(x, net, state) } else { Ok(vec![pointshare::is_zero(x[0], net, state)?]) }
            }
            /// x, y and the infinity flag of every point, as (share a, share b) pairs
            fn coords(x: &[G<Self>], many: bool, net: &RecNet, state: &mut Rep3State) -> eyre::Result<Vec<(u64, u64)>> {
                let (a, b, c) = if many {
                    conversion::point_share_to_fieldshares_many(x, net, state)?
                } else {
                    let (a, b, c) = conversion::point_share_to_fieldshares(x[0], net, state)?;
                    (vec![a], vec![b], vec![c])
                };
                let mut v = vec![];
                for i in 0..x.len() {
                    for z in [a[i], b[i], c[i]] {
                        v.push((small(&z.a), small(&z.b)));
                    }
                }
                Ok(v)
            }
        }
    };
}
group!(G5, F5);
group!(G11, F11);
group!(G257, F257);
group!(GBig, F40961);

#[derive(Clone)]
enum V<F: FieldUint, C: CurveGroup> {
    F(S<F>),
    B(U<F>),
    G(G<C>),
    /// recorded only
    R(&'static str, Value, Value),
}

fn limbs<X: UintBackend>(x: &X) -> Value {
    json!(x.as_limbs().iter().flat_map(|l| (0..4).map(move |i| (l >> (16 * i)) & 0xffff)).collect::<Vec<u64>>())
}

impl<F: FieldUint, C: Dlog<ScalarField = F>> V<F, C> {
    fn rec(&self) -> (&'static str, Value, Value) {
        match self {
            V::F(x) => ("f", json!(small(&x.a)), json!(small(&x.b))),
            V::B(x) => ("b", limbs(&x.a), limbs(&x.b)),
            V::G(x) => ("g", json!(x.a.dlog()), json!(x.b.dlog())),
            V::R(t, a, b) => (t, a.clone(), b.clone()),
        }
    }
}

struct Party<F: FieldUint, C: CurveGroup> {
    v: BTreeMap<u64, V<F, C>>,
    states: Vec<Rep3State>,
    cur: usize,
}

#[derive(Default, Clone)]
struct Out {
    ty: Vec<&'static str>,
    out: Vec<Value>,
    open: Vec<u64>,
    msgs: usize,
    lo: usize,
    hi: usize,
}

fn uopen<X: UintBackend>(x: &X) -> u64 {
    let l = x.as_limbs();
    // numbers beyond the range of the specification show as a marker
    if l[1..].iter().any(|x| *x != 0) || l[0] >> 31 != 0 { 2_000_000_000 } else { l[0] }
}

fn step<F: FieldUint, C: Group<F>>(p: &mut Party<F, C>, st: &Value, dealt: &[V<F, C>], net: &RecNet) -> eyre::Result<Out> {
    let op = st["op"].as_str().unwrap();
    let (d, a, b, c) = (ints(&st["d"]), ints(&st["a"]), ints(&st["b"]), ints(&st["c"]));
    let f = st["f"].as_u64().unwrap_or(0);
    let fe = |x: u64| F::from(x);
    let ue = |x: u64| F::Uint::from(x);
    let cur = p.cur;
    let fof = |p: &Party<F, C>, r: u64| match &p.v[&r] {
        V::F(x) => *x,
        _ => panic!("register {r} holds no field element"),
    };
    let bof = |p: &Party<F, C>, r: u64| match &p.v[&r] {
        V::B(x) => *x,
        _ => panic!("register {r} holds no bit string"),
    };
    let gof = |p: &Party<F, C>, r: u64| match &p.v[&r] {
        V::G(x) => *x,
        _ => panic!("register {r} holds no point"),
    };
    let fa = |p: &Party<F, C>, i: usize| fof(p, a[i]);
    let fb = |p: &Party<F, C>, i: usize| fof(p, b[i]);
    let va = |p: &Party<F, C>| a.iter().map(|r| fof(p, *r)).collect::<Vec<_>>();
    let vb = |p: &Party<F, C>| b.iter().map(|r| fof(p, *r)).collect::<Vec<_>>();
    let ba = |p: &Party<F, C>, i: usize| bof(p, a[i]);
    let bb = |p: &Party<F, C>, i: usize| bof(p, b[i]);
    let vba = |p: &Party<F, C>| a.iter().map(|r| bof(p, *r)).collect::<Vec<_>>();
    let vbb = |p: &Party<F, C>| b.iter().map(|r| bof(p, *r)).collect::<Vec<_>>();
    let ga = |p: &Party<F, C>, i: usize| gof(p, a[i]);
    let gb = |p: &Party<F, C>, i: usize| gof(p, b[i]);
    let vga = |p: &Party<F, C>| a.iter().map(|r| gof(p, *r)).collect::<Vec<_>>();
    let vc: Vec<F> = c.iter().map(|x| fe(*x)).collect();
    let id = p.states[cur].id;
    let mut fs: Vec<S<F>> = vec![];
    let mut bs: Vec<U<F>> = vec![];
    let mut gs: Vec<G<C>> = vec![];
    let mut rest: Vec<V<F, C>> = vec![];
    let mut o = Out::default();
    macro_rules! ns {
        () => {
            (net, &mut p.states[cur])
        };
    }
    macro_rules! call {
        ($fun:expr $(, $arg:expr)*) => {{
            $(let _ = &$arg;)*
            let args = ($($arg,)*);
            let (n, s) = ns!();
            call_inner!($fun, args, n, s $(, $arg)*)
        }};
    }
    macro_rules! call_inner {
        ($fun:expr, $args:ident, $n:ident, $s:ident) => { $fun($n, $s)? };
        ($fun:expr, $args:ident, $n:ident, $s:ident, $a:expr) => { $fun($args.0, $n, $s)? };
        ($fun:expr, $args:ident, $n:ident, $s:ident, $a:expr, $b:expr) => { $fun($args.0, $args.1, $n, $s)? };
        ($fun:expr, $args:ident, $n:ident, $s:ident, $a:expr, $b:expr, $c:expr) => { $fun($args.0, $args.1, $args.2, $n, $s)? };
    }
    match op {
        "input" | "ginput" | "binput" => rest = dealt.to_vec(),
        // ---- field arithmetic
        "add" => {
            let (x, y) = (fa(p, 0), fb(p, 0));
            fs.push(match f {
                0 => arithmetic::add(x, y),
                1 => {
                    let mut z = x;
                    arithmetic::add_assign(&mut z, y);
                    z
                }
                2 => x + y,
                3 => &x + &y,
                4 => {
                    let mut z = x;
                    z += y;
                    z
                }
                _ => {
                    let mut z = x;
                    z += &y;
                    z
                }
            })
        }
        "sub" => {
            let (x, y) = (fa(p, 0), fb(p, 0));
            fs.push(match f {
                0 => arithmetic::sub(x, y),
                1 => {
                    let mut z = x;
                    arithmetic::sub_assign(&mut z, y);
                    z
                }
                2 => x - y,
                3 => &x - &y,
                _ => {
                    let mut z = x;
                    z -= y;
                    z
                }
            })
        }
        "addv" => {
            let mut x = va(p);
            arithmetic::add_vec_assign(&mut x, &vb(p));
            fs = x;
        }
        "subv" => {
            let mut x = va(p);
            arithmetic::sub_vec_assign(&mut x, &vb(p));
            fs = x;
        }
        "addp" => fs.push(if f == 0 {
            arithmetic::add_public(fa(p, 0), vc[0], id)
        } else {
            let mut z = fa(p, 0);
            arithmetic::add_assign_public(&mut z, vc[0], id);
            z
        }),
        "subsp" => fs.push(arithmetic::sub_shared_by_public(fa(p, 0), vc[0], id)),
        "subps" => fs.push(arithmetic::sub_public_by_shared(vc[0], fa(p, 0), id)),
        "mulp" => {
            let (x, u) = (fa(p, 0), vc[0]);
            fs.push(match f {
                0 => arithmetic::mul_public(x, u),
                1 => {
                    let mut z = x;
                    arithmetic::mul_assign_public(&mut z, u);
                    z
                }
                2 => x * u,
                3 => &x * u,
                _ => {
                    let mut z = x;
                    z *= u;
                    z
                }
            })
        }
        "dbl" => fs.push(if f == 0 {
            fa(p, 0).double()
        } else {
            let mut z = fa(p, 0);
            z.double_in_place();
            z
        }),
        "neg" => fs.push(match f {
            0 => arithmetic::neg(fa(p, 0)),
            _ => -fa(p, 0),
        }),
        "zero" => fs.push(match f {
            0 => S::zero_share(),
            1 => <S<F> as Zero>::zero(),
            _ => S::default(),
        }),
        "promote" => {
            fs = vc
                .iter()
                .map(|x| match f {
                    0 => arithmetic::promote_to_trivial_share(id, *x),
                    1 => S::promote_from_trivial(x, id),
                    _ => S::promote_from_trivial_with_scalar(x, &F::one(), id),
                })
                .collect()
        }
        "promotes" => fs.push(S::promote_from_trivial_with_scalar(&vc[0], &vc[1], id)),
        "addmulp" => fs.push(arithmetic::add_mul_public(fa(p, 0), fb(p, 0), vc[0])),
        "evalpoly" => fs.push(poly::eval_poly(&va(p), vc[0])),
        "pow2" => fs.push(arithmetic::pow_2_public(fa(p, 0), vc[0])),
        "divsp" => fs.push(arithmetic::div_shared_by_public(fa(p, 0), vc[0])?),
        "mul" => fs.push(call!(arithmetic::mul, fa(p, 0), fb(p, 0))),
        "mulv" => fs = call!(arithmetic::mul_vec, &va(p), &vb(p)),
        "mull" => {
            let l = arithmetic::local_mul_vec(&va(p), &vb(p), &mut p.states[cur]);
            fs = arithmetic::reshare_vec(l, net)?;
        }
        "div" => fs.push(call!(arithmetic::div, fa(p, 0), fb(p, 0))),
        "divps" => fs.push(call!(arithmetic::div_public_by_shared, vc[0], fa(p, 0))),
        "inv" => fs.push(call!(arithmetic::inv, fa(p, 0))),
        "invv" => fs = call!(arithmetic::inv_vec, &va(p)),
        "open" => o.open.push(small(&arithmetic::open(fa(p, 0), net)?)),
        "openv" => o.open = arithmetic::open_vec(&va(p), net)?.iter().map(small).collect(),
        "mulopen" => o.open.push(small(&call!(arithmetic::mul_open, fa(p, 0), fb(p, 0)))),
        "mulopenv" => o.open = call!(arithmetic::mul_open_vec, &va(p), &vb(p)).iter().map(small).collect(),
        "cmux" => fs.push(call!(arithmetic::cmux, fa(p, 0), fa(p, 1), fa(p, 2))),
        "cmuxv" => {
            let (x, y) = (vb(p), a[1..].iter().map(|r| fof(p, *r)).collect::<Vec<_>>());
            fs = call!(arithmetic::cmux_vec, fa(p, 0), &y, &x)
        }
        "addmul" => fs.push(call!(arithmetic::add_mul, fa(p, 0), fa(p, 1), fa(p, 2))),
        "rand" => fs.push(arithmetic::rand(&mut p.states[cur])),
        "sqrt" => fs.push(call!(arithmetic::sqrt, fa(p, 0))),
        "pow" => fs.push(call!(arithmetic::pow_public, fa(p, 0), vc[0])),
        "axor" => fs.push(call!(arithmetic::arithmetic_xor, fa(p, 0), fb(p, 0))),
        "axorv" => fs = call!(arithmetic::arithmetic_xor_many, &va(p), &vb(p)),
        "r23" => {
            let r = rep3::id::PartyID::try_from(c[0] as usize)?;
            let inp = if id == r { None } else { Some(va(p)) };
            fs = arithmetic::reshare_from_2_to_3_parties(inp, a.len(), r, net, &mut p.states[cur])?;
        }
        // ---- comparisons
        "lt" => fs.push(call!(arithmetic::lt, fa(p, 0), fb(p, 0))),
        "le" => fs.push(call!(arithmetic::le, fa(p, 0), fb(p, 0))),
        "gt" => fs.push(call!(arithmetic::gt, fa(p, 0), fb(p, 0))),
        "ge" => fs.push(call!(arithmetic::ge, fa(p, 0), fb(p, 0))),
        "ltp" => fs.push(call!(arithmetic::lt_public, fa(p, 0), vc[0])),
        "lep" => fs.push(call!(arithmetic::le_public, fa(p, 0), vc[0])),
        "gtp" => fs.push(call!(arithmetic::gt_public, fa(p, 0), vc[0])),
        "gep" => fs.push(call!(arithmetic::ge_public, fa(p, 0), vc[0])),
        "gebit" => bs.push(call!(arithmetic::ge_bit, fa(p, 0), fb(p, 0))),
        "lepbit" => bs.push(call!(arithmetic::le_public_bit, fa(p, 0), vc[0])),
        "gepbit" => bs.push(call!(arithmetic::ge_public_bit, fa(p, 0), vc[0])),
        "eq" => fs.push(call!(arithmetic::eq, fa(p, 0), fb(p, 0))),
        "eqv" => fs = call!(arithmetic::eq_many, &va(p), &vb(p)),
        "eqp" => fs.push(call!(arithmetic::eq_public, fa(p, 0), vc[0])),
        "eqpv" => fs = call!(arithmetic::eq_public_many, &va(p), &vc[..]),
        "eqbit" => bs.push(call!(arithmetic::eq_bit, fa(p, 0), fb(p, 0))),
        "eqbitv" => bs = call!(arithmetic::eq_bit_many, &va(p), &vb(p)),
        "eqbitp" => bs.push(call!(arithmetic::eq_bit_public, fa(p, 0), vc[0])),
        "eqbitpv" => bs = call!(arithmetic::eq_bit_public_many, &va(p), &vc[..]),
        "neq" => fs.push(call!(arithmetic::neq, fa(p, 0), fb(p, 0))),
        "neqp" => fs.push(call!(arithmetic::neq_public, fa(p, 0), vc[0])),
        "iszero" => o.open.push(call!(arithmetic::is_zero, fa(p, 0)) as u64),
        // ---- bit strings
        "bxor" => bs.push(match f {
            0 => binary::xor(&ba(p, 0), &bb(p, 0)),
            _ => ba(p, 0) ^ bb(p, 0),
        }),
        "bxorp" => bs.push(if f == 0 { binary::xor_public(&ba(p, 0), &ue(c[0]), id) } else { binary::xor_public_vec(&[ba(p, 0)], &[ue(c[0])], id)[0] }),
        "bxorpv" => bs = binary::xor_public_vec(&vba(p), &c.iter().map(|x| ue(*x)).collect::<Vec<_>>(), id),
        "bor" => bs.push(call!(binary::or, &ba(p, 0), &bb(p, 0))),
        "borp" => bs.push(binary::or_public(&ba(p, 0), &ue(c[0]), id)),
        "band" => bs.push(call!(binary::and, &ba(p, 0), &bb(p, 0))),
        "bandv" => bs = call!(binary::and_vec, &vba(p), &vbb(p)),
        "bandp" => bs.push(binary::and_with_public(&ba(p, 0), &ue(c[0]))),
        "bshr" => bs.push(binary::shift_r_public(&ba(p, 0), vc[0])),
        "bshl" => bs.push(binary::shift_l_public(&ba(p, 0), vc[0])),
        "shlps" => fs.push(call!(binary::shift_l_public_by_shared, vc[0], &ba(p, 0))),
        "bopen" => o.open.push(if f == 0 { uopen(&binary::open(&ba(p, 0), net)?) } else { uopen(&arithmetic::open_bit::<F, _>(ba(p, 0), net)?) }),
        "bpromote" => bs = c.iter().map(|x| binary::promote_to_trivial_share(id, &ue(*x))).collect(),
        "bcmux" => bs.push(call!(binary::cmux, &ba(p, 0), &ba(p, 1), &ba(p, 2))),
        "bcmuxv" => {
            let k = a.len() / 3;
            let v = vba(p);
            bs = call!(binary::cmux_many, &v[..k], &v[k..2 * k], &v[2 * k..])
        }
        "bortree" => bs.push(call!(binary::or_tree, vba(p))),
        "biszero" => bs.push(call!(binary::is_zero, &ba(p, 0))),
        "biszerov" => bs = call!(binary::is_zero_many, vba(p)),
        // ---- conversions
        "a2b" => bs.push(match f {
            0 => call!(conversion::a2b, fa(p, 0)),
            1 => call!(conversion::a2b_selector, fa(p, 0)),
            2 => call!(conversion::a2y2b, fa(p, 0)),
            _ => call!(conversion::a2y2b_streaming, fa(p, 0)),
        }),
        "a2bv" => {
            bs = match f {
                0 => call!(conversion::a2b_many, &va(p)),
                _ => call!(conversion::a2y2b_many, &va(p)),
            }
        }
        "b2a" => fs.push(match f {
            0 => call!(conversion::b2a, &ba(p, 0)),
            1 => call!(conversion::b2a_selector, &ba(p, 0)),
            2 => call!(conversion::b2y2a, &ba(p, 0)),
            _ => call!(conversion::b2y2a_streaming, &ba(p, 0)),
        }),
        "b2av" => fs = call!(conversion::b2a_many, &vba(p)),
        "bitinj" => fs.push(if f == 0 {
            call!(conversion::bit_inject, &ba(p, 0))
        } else {
            let x = ba(p, 0);
            call!(conversion::bit_inject_from_bits, (x.a.bit(0), x.b.bit(0)))
        }),
        "bitinjv" => fs = call!(conversion::bit_inject_many, &vba(p)),
        "a2y2a" => {
            let delta = p.states[cur].rngs.generate_random_garbler_delta(id);
            let s = &mut p.states[cur];
            let y = if f & 1 == 0 { conversion::a2y(fof_raw(&p.v, a[0]), delta, net, s)? } else { conversion::a2y_streaming(fof_raw(&p.v, a[0]), delta, net, s)? };
            fs.push(if f & 2 == 0 { conversion::y2a(y, delta, net, s)? } else { conversion::y2a_streaming(y, delta, net, s)? });
        }
        "a2y2av" => {
            let delta = p.states[cur].rngs.generate_random_garbler_delta(id);
            let v = va(p);
            let ys = conversion::a2y_many(&v, delta, net, &mut p.states[cur])?;
            for y in ys {
                fs.push(conversion::y2a(y, delta, net, &mut p.states[cur])?);
            }
        }
        "b2y2b" => {
            let delta = p.states[cur].rngs.generate_random_garbler_delta(id);
            let mut ys = vec![];
            for x in vba(p) {
                ys.push(conversion::b2y::<F, _>(&x, delta, net, &mut p.states[cur])?);
            }
            if f == 0 {
                for y in ys {
                    bs.push(conversion::y2b(y, net, &mut p.states[cur])?);
                }
            } else {
                bs = conversion::y2b_many(ys, net, &mut p.states[cur])?;
            }
        }
        "p2f" => {
            let v = vga(p);
            rest = C::coords(&v, f == 1, net, &mut p.states[cur])?.into_iter().map(|(x, y)| V::R("q", json!(x), json!(y))).collect()
        }
        // ---- garbled functions
        "decomp" => {
            let v = va(p);
            fs = if f == 0 {
                yao::decompose_arithmetic(v[0], net, &mut p.states[cur], c[0] as usize, c[1] as usize)?
            } else {
                yao::decompose_arithmetic_many(&v, net, &mut p.states[cur], c[0] as usize, c[1] as usize)?
            }
        }
        "decompo" => {
            let v = va(p);
            let r: Vec<S<F12289>> = if f == 0 {
                yao::decompose_arithmetic_to_other_field(v[0], net, &mut p.states[cur], c[0] as usize, c[1] as usize)?
            } else {
                yao::decompose_arithmetic_to_other_field_many(&v, net, &mut p.states[cur], c[0] as usize, c[1] as usize)?
            };
            rest = r.iter().map(|x| V::R("k", json!(small(&x.a)), json!(small(&x.b)))).collect();
        }
        "slice" => {
            let v = va(p);
            let (lo, mid, bits) = (c[0] as usize, c[1] as usize, c[2] as usize);
            fs = if f == 0 {
                yao::slice_arithmetic(v[0], net, &mut p.states[cur], lo, mid, bits)?
            } else {
                yao::slice_arithmetic_many(&v, net, &mut p.states[cur], lo, mid, bits)?
            }
        }
        "modp2" => fs.push(yao::field_mod_power_2(fa(p, 0), net, &mut p.states[cur], c[0] as usize)?),
        "divp2" => {
            let v = va(p);
            fs = if f == 0 {
                vec![yao::field_int_div_power_2(v[0], net, &mut p.states[cur], c[0] as usize)?]
            } else {
                yao::field_int_div_power_2_many(&v, net, &mut p.states[cur], c[0] as usize)?
            }
        }
        "idiv" => {
            let (v, w) = (va(p), vb(p));
            fs = if f == 0 { vec![yao::field_int_div(v[0], w[0], net, &mut p.states[cur])?] } else { yao::field_int_div_many(&v, &w, net, &mut p.states[cur])? }
        }
        "idivp" => {
            let v = va(p);
            fs = if f == 0 {
                vec![yao::field_int_div_by_public(v[0], vc[0], net, &mut p.states[cur])?]
            } else {
                yao::field_int_div_by_public_many(&v, &vc, net, &mut p.states[cur])?
            }
        }
        "idivs" => {
            let v = va(p);
            fs = if f == 0 {
                vec![yao::field_int_div_by_shared(vc[0], v[0], net, &mut p.states[cur])?]
            } else {
                yao::field_int_div_by_shared_many(&vc, &v, net, &mut p.states[cur])?
            }
        }
        "slxor" | "sland" => {
            let (v, w) = (va(p), vb(p));
            let (bb, rot, tot) = (c[0] as usize, c[1] as usize, c[2] as usize);
            let s = &mut p.states[cur];
            fs = match (op, f) {
                ("slxor", 0) => yao::slice_xor(v[0], w[0], net, s, bb, rot, tot)?,
                ("slxor", _) => yao::slice_xor_many(&v, &w, net, s, bb, rot, tot)?,
                (_, 0) => yao::slice_and(v[0], w[0], net, s, bb, rot, tot)?,
                _ => yao::slice_and_many(&v, &w, net, s, bb, rot, tot)?,
            }
        }
        "slxorf" => {
            // c: k base bits, k rotations, k filters
            let (v, w) = (va(p), vb(p));
            let k = c.len() / 3;
            let bits = &c[..k];
            let rot: Vec<usize> = c[k..2 * k].iter().map(|x| *x as usize).collect();
            let fil: Vec<bool> = c[2 * k..].iter().map(|x| *x == 1).collect();
            let s = &mut p.states[cur];
            fs = if f == 0 { yao::slice_xor_with_filter(v[0], w[0], net, s, bits, &rot, &fil)? } else { yao::slice_xor_with_filter_many(&v, &w, net, s, bits, &rot, &fil)? }
        }
        "sort" => fs = gadgets::sort::batcher_odd_even_merge_sort_yao(&va(p), net, &mut p.states[cur], c[0] as usize)?,
        // ---- points
        "gadd" => {
            let (x, y) = (ga(p, 0), gb(p, 0));
            gs.push(match f {
                0 => pointshare::add(&x, &y),
                1 => {
                    let mut z = x;
                    pointshare::add_assign(&mut z, &y);
                    z
                }
                2 => x + y,
                3 => x + &y,
                _ => &x + &y,
            })
        }
        "gsub" => {
            let (x, y) = (ga(p, 0), gb(p, 0));
            gs.push(match f {
                0 => pointshare::sub(&x, &y),
                1 => {
                    let mut z = x;
                    pointshare::sub_assign(&mut z, &y);
                    z
                }
                2 => x - y,
                3 => x - &y,
                _ => &x - &y,
            })
        }
        "gaddp" | "gsubp" => {
            let mut x = ga(p, 0);
            if op == "gaddp" { pointshare::add_assign_public(&mut x, &C::of(c[0]), id) } else { pointshare::sub_assign_public(&mut x, &C::of(c[0]), id) }
            gs.push(x);
        }
        "gmulpp" => gs.push(pointshare::scalar_mul_public_point(&C::of(c[0]), fa(p, 0))),
        "gmulps" => gs.push(pointshare::scalar_mul_public_scalar(&ga(p, 0), vc[0])),
        "gmul" => gs.push(call!(pointshare::scalar_mul, &ga(p, 0), fb(p, 0))),
        "gmulv" => gs = call!(pointshare::scalar_mul_many, &vga(p), &vb(p)),
        "gpromote" => gs.push(pointshare::promote_to_trivial_share(id, &C::of(c[0]))),
        "gzero" => gs.push(G::zero_share()),
        "gmsm" => gs.push(<C as Group<F>>::msm(&c, &va(p))),
        "gopen" => o.open.push(pointshare::open_point(&ga(p, 0), net)?.dlog()),
        "gopenv" => o.open = pointshare::open_point_many(&vga(p), net)?.iter().map(|x| x.dlog()).collect(),
        "gopenhalf" => {
            let l = pointshare::scalar_mul_local(&ga(p, 0), fb(p, 0), &mut p.states[cur]);
            o.open.push(pointshare::open_half_point(l, net)?.dlog())
        }
        "gopenf" => {
            let (x, y) = pointshare::open_point_and_field(&ga(p, 0), &fb(p, 0), net)?;
            o.open = vec![x.dlog(), small(&y)];
        }
        "gopenfv" => {
            let (x, y) = pointshare::open_point_and_field_many(&vga(p), &vb(p), net)?;
            o.open = x.iter().map(|x| x.dlog()).chain(y.iter().map(small)).collect();
        }
        "giszero" => {
            let v = vga(p);
            for (x, y) in <C as Group<F>>::is_zero(&v, f == 1, net, &mut p.states[cur])? {
                bs.push(U::new(F::Uint::from(x), F::Uint::from(y)));
            }
        }
        // ---- states
        "fork" => {
            let s = p.states[cur].fork(0)?;
            p.states.push(s);
        }
        "use" => p.cur = c[0] as usize,
        _ => panic!("unknown op {op}"),
    }
    let all: Vec<V<F, C>> = fs.into_iter().map(V::F).chain(bs.into_iter().map(V::B)).chain(gs.into_iter().map(V::G)).chain(rest).collect();
    for x in &all {
        let (t, x, y) = x.rec();
        o.ty.push(t);
        o.out.push(json!([x, y]));
    }
    for (r, x) in d.iter().zip(all) {
        p.v.insert(*r, x);
    }
    Ok(o)
}

fn fof_raw<F: FieldUint, C: CurveGroup>(v: &BTreeMap<u64, V<F, C>>, r: u64) -> S<F> {
    match &v[&r] {
        V::F(x) => *x,
        _ => panic!("register {r} holds no field element"),
    }
}

fn expand<F: PrimeField>(x: [rep3::ReplicatedSeedType<Vec<F>, rep3::SeedRng>; 3]) -> [Vec<S<F>>; 3] {
    x.map(|s| s.expand_vec().unwrap())
}

fn deal<F: FieldUint, C: Group<F>>(st: &Value, rng: &mut ChaCha12Rng) -> [Vec<V<F, C>>; 3] {
    let c = ints(&st["c"]);
    let f = st["f"].as_u64().unwrap_or(0);
    let mut out: [Vec<V<F, C>>; 3] = Default::default();
    match st["op"].as_str().unwrap() {
        "input" => {
            let v: Vec<F> = c.iter().map(|x| F::from(*x)).collect();
            let sh: [Vec<S<F>>; 3] = match f {
                0 => {
                    let mut r: [Vec<S<F>>; 3] = Default::default();
                    for x in &v {
                        let s = rep3::share_field_element(*x, rng);
                        for i in 0..3 {
                            r[i].push(s[i]);
                        }
                    }
                    r
                }
                1 => rep3::share_field_elements(&v, rng),
                _ => expand(rep3::share_field_elements_seeded::<F, _, rep3::SeedRng>(&v, rng)),
            };
            for (o, s) in out.iter_mut().zip(sh) {
                *o = s.into_iter().map(V::F).collect();
            }
        }
        "ginput" => {
            for x in c {
                // form 1: no component is the neutral element
                let sh = loop {
                    let sh = rep3::share_curve_point(C::of(x), rng);
                    if f != 1 || sh.iter().all(|s| !s.a.is_zero()) {
                        break sh;
                    }
                };
                for (o, s) in out.iter_mut().zip(sh) {
                    o.push(V::G(s));
                }
            }
        }
        "binput" => {
            for x in c {
                let sh: [U<F>; 3] = if f == 0 && x < small(&-F::one()) + 1 {
                    rep3::share_binary(F::from(x), rng)
                } else {
                    // any bit string, with components of full width in form 2
                    let w = match f {
                        2 => F::Uint::BITS,
                        3 => 1,
                        _ => F::MODULUS_BIT_SIZE as usize,
                    };
                    let (a, b) = (F::Uint::random_bits(rng, w), F::Uint::random_bits(rng, w));
                    let c = F::Uint::from(x) ^ a ^ b;
                    [U::new(a, c), U::new(b, a), U::new(c, b)]
                };
                for (o, s) in out.iter_mut().zip(sh) {
                    o.push(V::B(s));
                }
            }
        }
        _ => {}
    }
    out
}

fn a2btype(job: &Value) -> A2BType {
    if job["a2b"].as_str() == Some("yao") { A2BType::Yao } else { A2BType::Direct }
}

/// One run; gives every party's steps and its received messages.
#[allow(clippy::type_complexity)]
fn execute<F: FieldUint, C: Group<F>>(job: &Value, seed: u64, keep: bool) -> (Vec<Result<Vec<Result<Out, String>>, String>>, Vec<RecNet>) {
    let steps = job["prog"].as_array().unwrap();
    let mut rng = ChaCha12Rng::seed_from_u64(seed);
    let dealt: Vec<[Vec<V<F, C>>; 3]> = steps.iter().map(|st| deal(st, &mut rng)).collect();
    let mut nets = RecNet::mesh(3, keep);
    if !job["alter"].is_null() {
        let d = job["alter"]["delta"].as_i64().unwrap();
        let f = move |b: &[u8]| {
            recount::<F>(b, d, F::zero())
                .or_else(|| recount::<C>(b, d, C::zero()))
                .or_else(|| recount::<C::BaseField>(b, d, C::BaseField::zero()))
                .or_else(|| recount::<F::Uint>(b, d, F::Uint::from(0u64)))
        };
        RecNet::alter(&mut nets, &job["alter"], Box::new(f));
    }
    let fixed = ints(&job["coins"]);
    let res = parties(nets.iter().collect(), |i, net: &RecNet| -> eyre::Result<Vec<Result<Out, String>>> {
        let mut v = vec![];
        if fixed.contains(&(i as u64)) {
            coins::fix(job["coinseed"].as_u64().unwrap() * 8191 + i as u64);
        }
        let state = Rep3State::new(net, a2btype(job))?;
        let mut p = Party::<F, C> { v: BTreeMap::new(), states: vec![state], cur: 0 };
        for (k, st) in steps.iter().enumerate() {
            if k + 1 == steps.len() {
                net.arm();
            }
            let (m0, r0) = (net.sent_msgs(), net.recv_msgs());
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step(&mut p, st, &dealt[k][i], net))) {
                Ok(Ok(mut o)) => {
                    o.msgs = net.sent_msgs() - m0;
                    (o.lo, o.hi) = (r0, net.recv_msgs());
                    v.push(Ok(o))
                }
                Ok(Err(e)) => v.push(Err(format!("{e:#}"))),
                Err(e) => v.push(Err(format!(
                    "panic: {}",
                    e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
                ))),
            }
        }
        Ok(v)
    });
    (res, nets)
}

fn prog<F: FieldUint, C: Group<F>>(job: &Value, emit: &mut dyn FnMut(Value)) {
    let steps = job["prog"].as_array().unwrap();
    let (res, nets) = execute::<F, C>(job, job["seed"].as_u64().unwrap_or(1), false);
    if !job["alter"].is_null() {
        let (altered, read) = RecNet::altered(&nets, &job["alter"]);
        let to = res[job["alter"]["to"].as_u64().unwrap() as usize].as_ref().ok().and_then(|r| r.get(steps.len() - 1));
        emit(json!({"ev": "count", "ty": "rep3", "what": steps.last().unwrap()["op"], "altered": altered, "read": read,
            "ok": matches!(to, Some(Ok(_))), "why": match to { Some(Err(e)) => e.clone(), _ => String::new() }}));
        return;
    }
    let fatal = res.iter().enumerate().filter_map(|(i, r)| r.as_ref().err().map(|e| format!("party {i}: {e}"))).next();
    emit(json!({"ev": "start", "p": job["p"], "q": C::base(), "bits": F::MODULUS_BIT_SIZE, "fatal": fatal.clone().unwrap_or_default()}));
    if fatal.is_some() {
        return;
    }
    let ps: Vec<_> = res.into_iter().map(|r| r.unwrap()).collect();
    for (k, st) in steps.iter().enumerate() {
        let at: Vec<&Result<Out, String>> = ps.iter().map(|v| &v[k]).collect();
        let ok: Vec<bool> = at.iter().map(|x| x.is_ok()).collect();
        let o: Vec<Out> = at.iter().map(|x| x.as_ref().cloned().unwrap_or_default()).collect();
        let why: Vec<String> = at.iter().filter_map(|x| x.as_ref().err().cloned()).take(3).collect();
        emit(json!({"ev": "step", "op": st["op"], "d": ints(&st["d"]), "a": ints(&st["a"]), "b": ints(&st["b"]), "c": ints(&st["c"]),
            "f": st["f"].as_u64().unwrap_or(0), "ok": ok, "ty": o.iter().map(|o| o.ty.clone()).max_by_key(|t| t.len()),
            "out": o.iter().map(|o| o.out.clone()).collect::<Vec<_>>(), "open": o.iter().map(|o| o.open.clone()).collect::<Vec<_>>(),
            "msgs": o.iter().map(|o| o.msgs).sum::<usize>(), "why": why}));
    }
    emit(json!({"ev": "end", "unread": nets.iter().map(|n| n.unread()).sum::<usize>()}));
}

/// The elements of a message: a counted vector or a bare sequence of elements of the given size.
fn elements(b: &[u8], elem: usize) -> Vec<Vec<u8>> {
    let count = if b.len() > 8 { u64::from_le_bytes(b[..8].try_into().unwrap()) as usize } else { 0 };
    let body = if count > 0 && count < 1 << 20 && count * elem + 8 == b.len() { &b[8..] } else { b };
    body.chunks(elem).map(|e| e.to_vec()).collect()
}

fn numbers(b: &[u8], elem: usize) -> Vec<u64> {
    elements(b, elem).iter().map(|e| e.iter().take(8).rev().fold(0u64, |a, x| (a << 8) | *x as u64)).collect()
}

fn dlogs<C: Dlog>(b: &[u8]) -> Vec<u64> {
    let elem = C::zero().serialized_size(ark_serialize::Compress::No);
    elements(b, elem).iter().map(|e| C::deserialize_uncompressed_unchecked(&e[..]).map(|x| x.dlog()).unwrap_or(8888)).collect()
}

/// Repeats one program and counts how often each projection of the parties' views occurs. A view consists of the
/// party's shares after each watched step and of the numbers received in the watched steps.
fn hist<F: FieldUint, C: Group<F>>(job: &Value, emit: &mut dyn FnMut(Value)) {
    let runs = job["runs"].as_u64().unwrap();
    let watch: Vec<usize> = ints(&job["watch"]).iter().map(|x| *x as usize).collect();
    let listen: Vec<usize> = ints(&job["listen"]).iter().map(|x| *x as usize).collect();
    let low = job["low"].as_u64().unwrap_or(64);
    let point = job["points"].as_bool().unwrap_or(false);
    let elem = job["elem"].as_u64().map(|x| x as usize).unwrap_or(F::zero().serialized_size(ark_serialize::Compress::No));
    let proj: Vec<Vec<(usize, usize)>> = job["proj"]
        .as_array()
        .map(|a| a.iter().map(|x| x.as_array().unwrap().iter().map(|y| (y[0].as_u64().unwrap() as usize, y[1].as_u64().unwrap() as usize)).collect()).collect())
        .unwrap_or_default();
    let mut counts: Vec<HashMap<Vec<u64>, u64>> = vec![HashMap::new(); proj.len()];
    let mut lens = vec![];
    let mut bad = 0u64;
    let cut = |x: u64| if low >= 64 { x } else { x & ((1 << low) - 1) };
    for k in 0..runs {
        let (res, nets) = execute::<F, C>(job, job["seed"].as_u64().unwrap_or(1).wrapping_mul(1_000_003).wrapping_add(k), true);
        let ps: Vec<Vec<Out>> = res.into_iter().filter_map(|r| r.ok()).filter_map(|r| r.into_iter().collect::<Result<Vec<_>, _>>().ok()).collect();
        if ps.len() != 3 {
            bad += 1;
            continue;
        }
        let mut views: Vec<Vec<u64>> = vec![vec![]; 3];
        let mut spread = vec![];
        for i in 0..3 {
            for w in &watch {
                for v in &ps[i][*w].out {
                    for s in v.as_array().unwrap() {
                        views[i].push(match s {
                            Value::Array(l) => cut(l.iter().rev().fold(0u64, |a, x| (a << 16) | x.as_u64().unwrap())),
                            x => x.as_u64().unwrap(),
                        });
                    }
                }
            }
            let log = nets[i].log.lock().unwrap();
            for w in &listen {
                for (_, m) in &log.received[ps[i][*w].lo..ps[i][*w].hi] {
                    let v: Vec<u64> = if point { dlogs::<C>(m) } else { numbers(m, elem).into_iter().map(cut).collect() };
                    if job["spread"].as_bool().unwrap_or(false) {
                        spread.push(v);
                    } else {
                        views[i].extend(v);
                    }
                }
            }
        }
        if job["spread"].as_bool().unwrap_or(false) {
            emit(json!({"ev": "spread", "msgs": spread}));
            return;
        }
        lens = views.iter().map(|v| v.len()).collect();
        for (c, idx) in counts.iter_mut().zip(&proj) {
            let key: Vec<u64> = idx.iter().map(|(q, i)| views[*q].get(*i).copied().unwrap_or(9999)).collect();
            *c.entry(key).or_default() += 1;
        }
    }
    emit(json!({"ev": "hist", "lens": lens, "bad": bad, "runs": runs,
        "counts": counts.iter().map(|c| c.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>()).collect::<Vec<_>>()}));
}

/// Dealing and reconstruction in every form; "cut" shortens one party's vector before combining.
fn share<F: FieldUint, C: Group<F>>(job: &Value, emit: &mut dyn FnMut(Value)) {
    let vals: Vec<i64> = job["vals"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    let what = job["what"].as_str().unwrap();
    let mut rng = ChaCha12Rng::seed_from_u64(job["seed"].as_u64().unwrap_or(1));
    let rng = &mut rng;
    let fs: Vec<F> = vals.iter().map(|x| F::from((*x).max(0) as u64)).collect();
    let cuts: Vec<Vec<u64>> = job["cuts"].as_array().map(|a| a.iter().map(ints).collect()).unwrap_or_default();
    // shares per party as (a, b) values (additive: a only), reconstruction per cut
    type R = (Vec<Vec<Value>>, Vec<Vec<i64>>);
    let rep = |sh: [Vec<S<F>>; 3]| -> R {
        let res = cuts
            .iter()
            .map(|c| {
                let v: Vec<Vec<S<F>>> = (0..3).map(|i| sh[i][..(c[i] as usize).min(sh[i].len())].to_vec()).collect();
                quiet(|| rep3::combine_field_elements(&v[0], &v[1], &v[2])).map(|r| r.iter().map(|x| small(x) as i64).collect()).unwrap_or(vec![-1])
            })
            .collect();
        (sh.iter().map(|v| v.iter().map(|x| json!([small(&x.a), small(&x.b)])).collect()).collect(), res)
    };
    let add = |sh: [Vec<F>; 3]| -> R {
        let n = sh[0].len();
        let r = (0..n).map(|k| small(&(sh[0][k] + sh[1][k] + sh[2][k])) as i64).collect();
        (sh.iter().map(|v| v.iter().map(|x| json!([small(x)])).collect()).collect(), vec![r])
    };
    let tr = |v: Vec<[S<F>; 3]>| -> [Vec<S<F>>; 3] { [0, 1, 2].map(|i| v.iter().map(|s| s[i]).collect()) };
    let r: Result<R, ()> = quiet(|| match what {
        "one" => {
            let sh = rep3::share_field_element(fs[0], rng);
            let r = rep3::combine_field_element(sh[0], sh[1], sh[2]);
            let mut x = rep(tr(vec![sh]));
            x.1.push(vec![small(&r) as i64]);
            x
        }
        "vec" => rep(rep3::share_field_elements(&fs, rng)),
        "seeded" => {
            let s = rep3::share_field_elements_seeded::<F, _, rep3::SeedRng>(&fs, rng);
            assert!(s.iter().all(|x| x.length().unwrap() == fs.len()));
            rep(expand(s))
        }
        "oneseeded" => rep(tr(vec![rep3::share_field_element_seeded::<F, _, rep3::SeedRng>(fs[0], rng).map(|x| x.expand())])),
        "additive" => add(rep3::share_field_elements_additive(&fs, rng)),
        "oneadditive" => add(rep3::share_field_element_additive(fs[0], rng).map(|x| vec![x])),
        "additiveseeded" => {
            let s = rep3::share_field_elements_additive_seeded::<F, _, rep3::SeedRng>(&fs, rng);
            assert!(s.iter().all(|x| x.length() == fs.len()));
            add(s.map(|x| x.expand_vec()))
        }
        "oneadditiveseeded" => add(rep3::share_field_element_additive_seeded::<F, _, rep3::SeedRng>(fs[0], rng).map(|x| vec![x.expand()])),
        "maybe" | "maybeadditive" => {
            // absent values stay absent at all parties; the others are judged as usual
            let o: Vec<Option<F>> = vals.iter().map(|x| if *x < 0 { None } else { Some(F::from(*x as u64)) }).collect();
            if what == "maybe" {
                let sh = rep3::share_maybe_field_elements(&o, rng);
                assert!(sh.iter().all(|v| v.len() == o.len() && v.iter().zip(&o).all(|(a, b)| a.is_some() == b.is_some())));
                rep(sh.map(|v| v.into_iter().flatten().collect()))
            } else {
                let sh = rep3::share_maybe_field_elements_additive(&o, rng);
                assert!(sh.iter().all(|v| v.len() == o.len() && v.iter().zip(&o).all(|(a, b)| a.is_some() == b.is_some())));
                add(sh.map(|v| v.into_iter().flatten().collect()))
            }
        }
        "binary" => {
            let sh: Vec<[U<F>; 3]> = fs.iter().map(|x| rep3::share_binary(*x, rng)).collect();
            let p: Vec<Vec<U<F>>> = (0..3).map(|i| sh.iter().map(|s| s[i]).collect()).collect();
            let res = cuts
                .iter()
                .map(|c| {
                    let v: Vec<Vec<U<F>>> = (0..3).map(|i| p[i][..(c[i] as usize).min(p[i].len())].to_vec()).collect();
                    quiet(|| rep3::combine_binary_elements(&v[0], &v[1], &v[2])).map(|r| r.iter().map(|x| uopen(x) as i64).collect()).unwrap_or(vec![-1])
                })
                .chain(sh.iter().take(1).map(|s| if vals.len() == 1 { vec![uopen(&rep3::combine_binary_element(s[0], s[1], s[2])) as i64] } else { vec![-3] }))
                .collect();
            (p.iter().map(|v| v.iter().map(|x| json!([limbs(&x.a), limbs(&x.b)])).collect()).collect(), res)
        }
        "points" | "point" => {
            let gsv: Vec<C> = vals.iter().map(|x| C::of(*x as u64)).collect();
            let sh: [Vec<G<C>>; 3] = if what == "points" { rep3::share_curve_points(&gsv, rng) } else { rep3::share_curve_point(gsv[0], rng).map(|x| vec![x]) };
            let mut res: Vec<Vec<i64>> = cuts
                .iter()
                .map(|c| {
                    let v: Vec<Vec<G<C>>> = (0..3).map(|i| sh[i][..(c[i] as usize).min(sh[i].len())].to_vec()).collect();
                    quiet(|| rep3::combine_curve_points(&v[0], &v[1], &v[2])).map(|r| r.iter().map(|x| x.dlog() as i64).collect()).unwrap_or(vec![-1])
                })
                .collect();
            if what == "point" {
                res.push(vec![rep3::combine_curve_point(sh[0][0], sh[1][0], sh[2][0]).dlog() as i64]);
            }
            (sh.iter().map(|v| v.iter().map(|x| json!([x.a.dlog(), x.b.dlog()])).collect()).collect(), res)
        }
        _ => panic!("unknown form"),
    });
    let (sh, res) = r.unwrap_or_default();
    let kept: Vec<i64> = vals.iter().copied().filter(|x| *x >= 0).collect();
    emit(json!({"ev": "share", "p": job["p"], "what": what, "vals": kept, "shares": sh, "res": res, "cuts": cuts}));
}

/// A history of draws and forks over a large field; equal values get equal numbers, zero gets 0.
fn fresh(job: &Value, emit: &mut dyn FnMut(Value)) {
    use ark_bn254::{Fr, G1Projective};
    use rep3::id::PartyID;
    let steps = job["prog"].as_array().unwrap();
    let nets = RecNet::mesh(3, false);
    // per draw: a list of (tag, value in a common representation)
    type D = Vec<Vec<Vec<u8>>>;
    let res = parties(nets.iter().collect(), |_, net: &RecNet| -> eyre::Result<(D, Vec<Vec<Vec<u8>>>)> {
        use ark_serialize::CanonicalSerialize;
        let ser = |x: &Fr| {
            let mut v = vec![];
            x.serialize_compressed(&mut v).unwrap();
            v
        };
        let state = Rep3State::new(net, A2BType::default())?;
        let mut st = vec![state];
        let mut cur = 0usize;
        let mut out: D = vec![];
        for s in steps {
            let c = ints(&s["c"]);
            let mut v: Vec<Vec<u8>> = vec![];
            let id = st[cur].id;
            let me = &mut st[cur];
            let n = c.first().copied().unwrap_or(0) as usize;
            match s["op"].as_str().unwrap() {
                // masks: one value per party
                "maskf" => v.push(ser(&me.rngs.rand.masking_field_element::<Fr>())),
                "maskfv" => v = me.rngs.rand.masking_field_elements_vec::<Fr>(n).iter().map(ser).collect(),
                "maske" => v.push(me.rngs.rand.masking_element::<mpc_core::protocols::rep3_ring::ring::ring_impl::RingElement<u128>>().0.to_le_bytes().to_vec()),
                "maskev" => {
                    v = me
                        .rngs
                        .rand
                        .masking_elements_vec::<mpc_core::protocols::rep3_ring::ring::ring_impl::RingElement<u128>>(n)
                        .iter()
                        .map(|x| x.0.to_le_bytes().to_vec())
                        .collect()
                }
                "maskp" => {
                    let mut b = vec![];
                    me.rngs.rand.masking_ec_element::<G1Projective>().into_affine().serialize_compressed(&mut b)?;
                    v.push(b)
                }
                // replicated draws: (a, b) per party
                "fes" => {
                    let (a, b) = me.rngs.rand.random_fes::<Fr>();
                    v = vec![ser(&a), ser(&b)]
                }
                "rand" => {
                    let x = arithmetic::rand::<Fr>(me);
                    v = vec![ser(&x.a), ser(&x.b)]
                }
                "els" => {
                    let (a, b) = me.rngs.rand.random_elements::<u128>();
                    v = vec![a.to_le_bytes().to_vec(), b.to_le_bytes().to_vec()]
                }
                "ecs" => {
                    let (a, b) = me.rngs.rand.random_ecs::<G1Projective>();
                    for x in [a, b] {
                        let mut y = vec![];
                        x.into_affine().serialize_compressed(&mut y)?;
                        v.push(y)
                    }
                }
                "uint" => {
                    let (a, b) = me.rngs.rand.random_uint::<mpc_core::uint::RUint<256, 4>>(n);
                    for x in [a, b] {
                        let mut y = vec![0; 32];
                        x.to_le_bytes_into(&mut y);
                        v.push(y)
                    }
                }
                "seeds" => {
                    let (a, b) = me.rngs.rand.random_seeds();
                    v = vec![a.to_vec(), b.to_vec()]
                }
                "perm" => {
                    let (a, b) = me.rngs.rand.random_perm((0..n as u8).collect::<Vec<u8>>());
                    v = vec![a, b]
                }
                // one side only: the values of the two generators drawn one after the other by all parties
                "sides" => {
                    let a = me.rngs.rand.random_field_element_rng1::<Fr>();
                    let b = me.rngs.rand.random_field_element_rng2::<Fr>();
                    v = vec![ser(&a), ser(&b)]
                }
                // common to the garblers
                "shared" => {
                    if id != PartyID::ID0 {
                        let x: u128 = me.rngs.generate_shared(id);
                        v.push(x.to_le_bytes().to_vec())
                    }
                }
                "delta" => {
                    if let Some(w) = me.rngs.generate_random_garbler_delta(id) {
                        v.push(format!("{w:?}").into_bytes())
                    }
                }
                "own" => {
                    use rand::RngCore;
                    let mut b = vec![0; 16];
                    me.rng.fill_bytes(&mut b);
                    v.push(b)
                }
                "fork" => {
                    let x = me.fork(n)?;
                    st.push(x);
                }
                "use" => cur = n,
                x => panic!("unknown draw {x}"),
            }
            out.push(v);
        }
        Ok((out, vec![]))
    });
    if let Some(e) = res.iter().filter_map(|r| r.as_ref().err()).next() {
        emit(json!({"ev": "fresh", "fatal": e, "draws": []}));
        return;
    }
    let ps: Vec<D> = res.into_iter().map(|r| r.unwrap().0).collect();
    let mut ids: HashMap<Vec<u8>, u64> = HashMap::new();
    let mut draws = vec![];
    for (k, s) in steps.iter().enumerate() {
        let op = s["op"].as_str().unwrap();
        if op == "fork" || op == "use" {
            continue;
        }
        let vals: Vec<&Vec<Vec<u8>>> = ps.iter().map(|p| &p[k]).collect();
        // the sum over the parties of every mask
        let sums: Vec<bool> = match op {
            "maskf" | "maskfv" => (0..vals[0].len())
                .map(|j| vals.iter().map(|v| Fr::deserialize_compressed(&v[j][..]).unwrap()).sum::<Fr>().is_zero())
                .collect(),
            "maske" | "maskev" => (0..vals[0].len())
                .map(|j| vals.iter().fold(0u128, |a, v| a.wrapping_add(u128::from_le_bytes(v[j][..].try_into().unwrap()))) == 0)
                .collect(),
            "maskp" => vec![vals.iter().map(|v| ark_bn254::G1Affine::deserialize_compressed(&v[0][..]).unwrap().into_group()).sum::<G1Projective>().is_zero()],
            _ => vec![],
        };
        let perm = op == "perm";
        let num: Vec<Vec<u64>> = vals
            .iter()
            .map(|v| {
                v.iter()
                    .map(|x| {
                        let mut key = x.clone();
                        if perm {
                            key.extend([0xff, k as u8, (k >> 8) as u8]);
                        }
                        let n = ids.len() as u64 + 1;
                        *ids.entry(key).or_insert(n)
                    })
                    .collect()
            })
            .collect();
        let isperm = !perm
            || vals.iter().all(|v| {
                v.iter().all(|x| {
                    let mut y = x.clone();
                    y.sort();
                    y == (0..y.len() as u8).collect::<Vec<_>>()
                })
            });
        draws.push(json!({"op": op, "n": ints(&s["c"]).first().copied().unwrap_or(0), "vals": num, "zero": sums.iter().all(|x| *x), "perm": isperm}));
    }
    emit(json!({"ev": "fresh", "fatal": "", "draws": draws}));
}

/// Replicated and additive shares turned into Shamir shares, then used in Shamir protocols.
fn bridge<F: FieldUint, C: Group<F>>(job: &Value, emit: &mut dyn FnMut(Value)) {
    use mpc_core::protocols::shamir::{self, ShamirPreprocessing, ShamirState};
    let vals = ints(&job["vals"]);
    let pre = job["pre"].as_u64().unwrap_or(0) as usize;
    let what = job["what"].as_str().unwrap();
    let short = job["short"].as_bool().unwrap_or(false);
    let mut rng = ChaCha12Rng::seed_from_u64(job["seed"].as_u64().unwrap_or(1));
    let fs: Vec<F> = vals.iter().map(|x| F::from(*x)).collect();
    let rep = rep3::share_field_elements(&fs, &mut rng);
    let add = rep3::share_field_elements_additive(&fs, &mut rng);
    let pts = rep3::share_curve_points(&vals.iter().map(|x| C::of(*x)).collect::<Vec<_>>(), &mut rng);
    let spread = job["spread"].as_bool().unwrap_or(false);
    let nets = RecNet::mesh(3, spread);
    let res = parties(nets.iter().collect(), |i, net: &RecNet| -> eyre::Result<(Vec<u64>, usize, Vec<u64>)> {
        let mut st: ShamirState<F> = ShamirPreprocessing::new(3, 1, pre, net)?.into();
        let id = rep3::id::PartyID::try_from(i)?;
        let (m0, r0) = (net.sent_msgs(), net.recv_msgs());
        if what == "point" {
            let g: Vec<_> = pts[i].iter().map(|x| ShamirState::<F>::translate_point_repshare(*x, id)).collect();
            let m = net.sent_msgs() - m0;
            let op = shamir::pointshare::open_point_many(&g, net, &mut st)?;
            return Ok((g.iter().map(|x| x.a.dlog()).collect(), m, op.iter().map(|x| x.dlog()).collect()));
        }
        let s: Vec<shamir::ShamirPrimeFieldShare<F>> = match what {
            "rep" => rep[i].iter().map(|x| ShamirState::<F>::translate_primefield_repshare(*x, id)).collect(),
            "repvec" => ShamirState::<F>::translate_primefield_repshare_vec(rep[i].clone(), id),
            "add" => add[i].iter().map(|x| st.translate_primefield_addshare(*x, net)).collect::<eyre::Result<Vec<_>>>()?,
            _ => st.translate_primefield_addshare_vec(add[i].clone(), net)?,
        };
        let m = net.sent_msgs() - m0;
        let sh = s.iter().map(|x| small(&x.a)).collect();
        if spread {
            return Ok((vec![r0 as u64, net.recv_msgs() as u64], m, vec![]));
        }
        if short {
            return Ok((sh, m, vec![]));
        }
        // usable: squares computed and opened by the Shamir engine
        let sq = shamir::arithmetic::mul_vec(&s, &s, net, &mut st)?;
        let op = shamir::arithmetic::open_vec(&sq, net, &mut st)?;
        Ok((sh, m, op.iter().map(small).collect()))
    });
    let fatal = res.iter().filter_map(|r| r.as_ref().err()).next().cloned().unwrap_or_default();
    let ok: Vec<(Vec<u64>, usize, Vec<u64>)> = res.into_iter().map(|r| r.unwrap_or_default()).collect();
    if spread {
        let elem = F::zero().serialized_size(ark_serialize::Compress::No);
        let mut msgs = vec![];
        for (n, x) in nets.iter().zip(&ok) {
            if let [lo, hi] = x.0[..] {
                msgs.extend(n.log.lock().unwrap().received[lo as usize..hi as usize].iter().map(|(_, m)| numbers(m, elem)));
            }
        }
        emit(json!({"ev": "spread", "msgs": msgs, "fatal": fatal}));
        return;
    }
    emit(json!({"ev": "bridge", "p": job["p"], "what": what, "fatal": fatal, "vals": vals, "short": short,
        "shares": ok.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), "msgs": ok.iter().map(|x| x.1).sum::<usize>(),
        "open": ok.iter().map(|x| x.2.clone()).collect::<Vec<_>>()}));
}

fn main() {
    main_loop(|job, emit| {
        let kind = job["kind"].as_str().unwrap_or("prog");
        if kind == "fresh" {
            return fresh(job, emit);
        }
        macro_rules! go {
            ($f:ty, $g:ty) => {
                match kind {
                    "prog" => prog::<$f, $g>(job, emit),
                    "hist" => hist::<$f, $g>(job, emit),
                    "bridge" => bridge::<$f, $g>(job, emit),
                    _ => share::<$f, $g>(job, emit),
                }
            };
        }
        match job["p"].as_u64().unwrap() {
            5 => go!(F5, G5),
            11 => go!(F11, G11),
            257 => go!(F257, G257),
            40961 => go!(F40961, GBig),
            p => panic!("no field {p}"),
        }
    });
}

#[allow(unused)]
fn _u<F: PrimeField>(r: &mut ChaCha12Rng) -> F {
    let _ = <F as ark_ff::Field>::ONE.is_one();
    F::rand(r)
}
