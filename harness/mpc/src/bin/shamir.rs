//! Executes Shamir programs: `shamir JOBS OUT`. Two kinds of jobs: "prog" (all parties run a program on shared
//! registers, every step is recorded with the shares of all parties) and "share" (dealing and reconstruction).
use ark_ec::{AffineRepr, CurveGroup, short_weierstrass::Affine};
use ark_ff::{PrimeField, UniformRand, Zero};
use mpc_core::MpcState;
use mpc_core::protocols::shamir::{
    self, ShamirPointShare, ShamirPreprocessing, ShamirPrimeFieldShare, ShamirState, arithmetic, pointshare, poly,
};
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};
use vmpc::*;

type S<F> = ShamirPrimeFieldShare<F>;

struct Party<F: PrimeField, C> {
    s: BTreeMap<u64, S<F>>,
    g: BTreeMap<u64, ShamirPointShareBox<C>>,
    states: Vec<ShamirState<F>>,
    cur: usize,
}
#[derive(Clone)]
struct ShamirPointShareBox<C>(C);

/// What one step left at one party.
#[derive(Default, Clone)]
struct Out {
    out: Vec<u64>,
    open: Vec<u64>,
}

trait Group<F: PrimeField>: Dlog<ScalarField = F> {
    fn msm(points: &[u64], sc: &[S<F>]) -> Self;
}
macro_rules! group {
    ($g:ty, $f:ty) => {
        impl Group<$f> for $g {
            fn msm(points: &[u64], sc: &[S<$f>]) -> Self {
                let p: Vec<_> = points.iter().map(|k| <$g>::of(*k).into_affine()).collect();
                pointshare::msm_public_points::<$g, _>(&p, sc).a
            }
        }
    };
}
group!(G5, F5);
group!(G11, F11);
group!(G257, F257);
group!(GBig, F40961);
#[allow(unused)]
fn _affine<P: ark_ec::short_weierstrass::SWCurveConfig>(_: Affine<P>) {}

fn step<F: PrimeField, C: Group<F>>(
    p: &mut Party<F, C>,
    st: &Value,
    dealt: &[u64],
    net: &RecNet,
) -> eyre::Result<Out> {
    let op = st["op"].as_str().unwrap();
    let (d, a, b, c) = (ints(&st["d"]), ints(&st["a"]), ints(&st["b"]), ints(&st["c"]));
    let f = st["f"].as_u64().unwrap_or(0);
    let fe = |x: u64| F::from(x);
    let cur = p.cur;
    let sa = |p: &Party<F, C>, i: usize| p.s[&a[i]];
    let sb = |p: &Party<F, C>, i: usize| p.s[&b[i]];
    let va = |p: &Party<F, C>| a.iter().map(|r| p.s[r]).collect::<Vec<_>>();
    let vb = |p: &Party<F, C>| b.iter().map(|r| p.s[r]).collect::<Vec<_>>();
    let ga = |p: &Party<F, C>, i: usize| ShamirPointShare::<C> { a: p.g[&a[i]].0 };
    let gb = |p: &Party<F, C>, i: usize| ShamirPointShare::<C> { a: p.g[&b[i]].0 };
    let mut set: Vec<S<F>> = vec![];
    let mut gset: Vec<C> = vec![];
    let mut o = Out::default();
    match op {
        "input" => set = dealt.iter().map(|x| S::new(fe(*x))).collect(),
        "ginput" => gset = dealt.iter().map(|x| C::of(*x)).collect(),
        "add" => {
            let (x, y) = (sa(p, 0), sb(p, 0));
            set.push(match f {
                0 => arithmetic::add(x, y),
                1 => {
                    let mut z = x;
                    arithmetic::add_assign(&mut z, y);
                    z
                }
                2 => x + y,
                3 => &x + &y,
                4 => x + &y,
                5 => {
                    let mut z = x;
                    z += y;
                    z
                }
                _ => {
                    let mut z = x;
                    z += &y;
                    z
                }
            })
        }
        "sub" => {
            let (x, y) = (sa(p, 0), sb(p, 0));
            set.push(match f {
                0 => arithmetic::sub(x, y),
                1 => {
                    let mut z = x;
                    arithmetic::sub_assign(&mut z, y);
                    z
                }
                2 => x - y,
                3 => &x - &y,
                4 => x - &y,
                _ => {
                    let mut z = x;
                    z -= y;
                    z
                }
            })
        }
        "addv" => {
            let mut x = va(p);
            arithmetic::add_vec_assign(&mut x, &vb(p));
            set = x;
        }
        "subv" => {
            let mut x = va(p);
            arithmetic::sub_vec_assign(&mut x, &vb(p));
            set = x;
        }
        "addp" => {
            let x = sa(p, 0);
            let u = fe(c[0]);
            set.push(match f {
                0 => arithmetic::add_public(x, u),
                1 => {
                    let mut z = x;
                    arithmetic::add_assign_public(&mut z, u);
                    z
                }
                2 => x + u,
                3 => &x + &u,
                _ => {
                    let mut z = x;
                    z += u;
                    z
                }
            })
        }
        "mulp" => {
            let x = sa(p, 0);
            let u = fe(c[0]);
            set.push(match f {
                0 => arithmetic::mul_public(x, u),
                1 => {
                    let mut z = x;
                    arithmetic::mul_assign_public(&mut z, u);
                    z
                }
                2 => x * u,
                3 => &x * &u,
                _ => {
                    let mut z = x;
                    z *= u;
                    z
                }
            })
        }
        "neg" => {
            let x = sa(p, 0);
            set.push(match f {
                0 => arithmetic::neg(x),
                1 => -x,
                _ => -&x,
            })
        }
        "zero" => set.push(if f == 0 { S::zero_share() } else { <S<F> as Zero>::zero() }),
        "promote" => {
            set = if f == 0 {
                c.iter().map(|x| arithmetic::promote_to_trivial_share(fe(*x))).collect()
            } else {
                arithmetic::promote_to_trivial_shares(&c.iter().map(|x| fe(*x)).collect::<Vec<_>>())
            }
        }
        "evalpoly" => set.push(poly::eval_poly(&va(p), fe(c[0]))),
        "mul" => set.push(arithmetic::mul(sa(p, 0), sb(p, 0), net, &mut p.states[cur])?),
        "mulv" => set = arithmetic::mul_vec(&va(p), &vb(p), net, &mut p.states[cur])?,
        "mull" => {
            // local products of whole vectors, then one joint degree reduction
            use mpc_core::protocols::shamir::network::ShamirNetworkExt;
            let l = arithmetic::local_mul_vec(&va(p), &vb(p));
            set = net.degree_reduce_many(&mut p.states[cur], l)?;
        }
        "inv" => set.push(arithmetic::inv(sa(p, 0), net, &mut p.states[cur])?),
        "invv" => set = arithmetic::inv_vec(&va(p), net, &mut p.states[cur])?,
        "div" => set.push(arithmetic::div(sa(p, 0), sb(p, 0), net, &mut p.states[cur])?),
        "divsp" => set.push(arithmetic::div_shared_by_public(sa(p, 0), fe(c[0]))?),
        "divps" => set.push(arithmetic::div_public_by_shared(fe(c[0]), sa(p, 0), net, &mut p.states[cur])?),
        "open" => o.open.push(small(&arithmetic::open(sa(p, 0), net, &mut p.states[cur])?)),
        "openv" => o.open = arithmetic::open_vec(&va(p), net, &mut p.states[cur])?.iter().map(small).collect(),
        "mulopenv" => o.open = arithmetic::mul_open_vec(&va(p), &vb(p), net, &mut p.states[cur])?.iter().map(small).collect(),
        "rand" => set.push(p.states[cur].rand(net)?),
        "pair" => {
            let (x, y) = p.states[cur].get_pair(net)?;
            set = vec![S::new(x), S::new(y)];
        }
        "buffer" => p.states[cur].buffer_triples(net, c[0] as usize)?,
        "fork" => {
            let s = p.states[cur].fork(c[0] as usize)?;
            p.states.push(s);
        }
        "use" => p.cur = c[0] as usize,
        "gadd" => {
            let (x, y) = (ga(p, 0), gb(p, 0));
            gset.push(match f {
                0 => pointshare::add(&x, &y).a,
                1 => {
                    let mut z = x;
                    pointshare::add_assign(&mut z, &y);
                    z.a
                }
                2 => (x + y).a,
                3 => (x + &y).a,
                _ => (&x + &y).a,
            })
        }
        "gsub" => {
            let (x, y) = (ga(p, 0), gb(p, 0));
            gset.push(match f {
                0 => pointshare::sub(&x, &y).a,
                1 => {
                    let mut z = x;
                    pointshare::sub_assign(&mut z, &y);
                    z.a
                }
                2 => (x - y).a,
                3 => (x - &y).a,
                _ => (&x - &y).a,
            })
        }
        "gaddp" => {
            let mut x = ga(p, 0);
            if f == 0 {
                pointshare::add_assign_public(&mut x, &C::of(c[0]));
            } else {
                pointshare::add_assign_public_affine(&mut x, &C::of(c[0]).into_affine());
            }
            gset.push(x.a);
        }
        "gsubp" => {
            let mut x = ga(p, 0);
            if f == 0 {
                pointshare::sub_assign_public(&mut x, &C::of(c[0]));
            } else {
                pointshare::sub_assign_public_affine(&mut x, &C::of(c[0]).into_affine());
            }
            gset.push(x.a);
        }
        "gmulpp" => gset.push(pointshare::scalar_mul_public_point(sa(p, 0), &C::of(c[0])).a),
        "gmulps" => gset.push(pointshare::scalar_mul_public_scalar(&ga(p, 0), &fe(c[0])).a),
        "gmul" => gset.push(pointshare::scalar_mul(&ga(p, 0), sb(p, 0), net, &mut p.states[cur])?.a),
        "gpromote" => gset.push(pointshare::promote_to_trivial_share(&C::of(c[0])).a),
        "gmsm" => gset.push(<C as Group<F>>::msm(&c, &va(p))),
        "gopen" => o.open.push(pointshare::open_point(&ga(p, 0), net, &mut p.states[cur])?.dlog()),
        "gopenv" => {
            let v: Vec<_> = (0..a.len()).map(|i| ga(p, i)).collect();
            o.open = pointshare::open_point_many(&v, net, &mut p.states[cur])?.iter().map(|x| x.dlog()).collect()
        }
        "gopenhalf" => {
            let l = pointshare::scalar_mul_local(&ga(p, 0), sb(p, 0));
            o.open.push(pointshare::open_half_point(l, net, &mut p.states[cur])?.dlog())
        }
        "gopenf" => {
            let (x, y) = pointshare::open_point_and_field(&ga(p, 0), &sb(p, 0), net, &mut p.states[cur])?;
            o.open = vec![x.dlog(), small(&y)];
        }
        "gopenfv" => {
            let v: Vec<_> = (0..a.len()).map(|i| ga(p, i)).collect();
            let (x, y) = pointshare::open_point_and_field_many(&v, &vb(p), net, &mut p.states[cur])?;
            o.open = x.iter().map(|x| x.dlog()).chain(y.iter().map(small)).collect();
        }
        _ => panic!("unknown op {op}"),
    }
    if !gset.is_empty() {
        o.out = gset.iter().map(|x| x.dlog()).collect();
        for (r, x) in d.iter().zip(gset) {
            p.g.insert(*r, ShamirPointShareBox(x));
        }
    } else {
        o.out = set.iter().map(|x| small(&x.a)).collect();
        for (r, x) in d.iter().zip(set) {
            p.s.insert(*r, x);
        }
    }
    Ok(o)
}

fn prog<F: PrimeField, C: Group<F>>(job: &Value, emit: &mut dyn FnMut(Value)) {
    let n = job["n"].as_u64().unwrap() as usize;
    let t = job["t"].as_u64().unwrap() as usize;
    let pre = job["pre"].as_u64().unwrap_or(0) as usize;
    let keep = job["view"].as_bool().unwrap_or(false);
    let steps = job["prog"].as_array().unwrap();
    let mut rng = ChaCha12Rng::seed_from_u64(job["seed"].as_u64().unwrap_or(1));
    // the dealer's part
    let mut dealt: Vec<Vec<Vec<u64>>> = vec![vec![vec![]; steps.len()]; n];
    for (k, st) in steps.iter().enumerate() {
        match st["op"].as_str().unwrap() {
            "input" => {
                let c: Vec<F> = ints(&st["c"]).iter().map(|x| F::from(*x)).collect();
                let sh = if st["f"].as_u64() == Some(1) {
                    shamir::share_field_elements(&c, t, n, &mut rng)
                } else {
                    let per: Vec<Vec<S<F>>> = c.iter().map(|x| shamir::share_field_element(*x, t, n, &mut rng)).collect();
                    (0..n).map(|i| per.iter().map(|v| v[i]).collect()).collect()
                };
                for i in 0..n {
                    dealt[i][k] = sh[i].iter().map(|x| small(&x.a)).collect();
                }
            }
            "ginput" => {
                for x in ints(&st["c"]) {
                    let sh = shamir::share_curve_point(C::of(x), t, n, &mut rng);
                    for i in 0..n {
                        dealt[i][k].push(sh[i].a.dlog());
                    }
                }
            }
            _ => {}
        }
    }
    let mut nets = RecNet::mesh(n, keep);
    let alter = &job["alter"];
    if !alter.is_null() {
        let delta = alter["delta"].as_i64().unwrap();
        RecNet::alter(&mut nets, alter, Box::new(move |b| recount::<F>(b, delta, F::zero()).or_else(|| recount::<C>(b, delta, C::zero()))));
    }
    type Rec = (Vec<Result<(Out, usize, usize), String>>, Option<String>);
    let fixed = ints(&job["coins"]);
    let res = parties(nets.iter().collect(), |i, net: &RecNet| -> eyre::Result<Rec> {
        let mut v = vec![];
        if fixed.contains(&(i as u64)) {
            coins::fix(job["coinseed"].as_u64().unwrap() * 8191 + i as u64);
        }
        let state: ShamirState<F> = ShamirPreprocessing::new(n, t, pre, net)?.into();
        let mut p = Party::<F, C> { s: BTreeMap::new(), g: BTreeMap::new(), states: vec![state], cur: 0 };
        for (k, st) in steps.iter().enumerate() {
            if k + 1 == steps.len() {
                net.arm();
            }
            let m0 = net.sent_msgs();
            let r0 = net.recv_msgs();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step(&mut p, st, &dealt[i][k], net)));
            match r {
                Ok(Ok(o)) => v.push(Ok((o, net.sent_msgs() - m0, net.recv_msgs() - r0))),
                Ok(Err(e)) => v.push(Err(format!("{e:#}"))),
                Err(_) => {
                    v.push(Err("panic".into()));
                    return Ok((v, Some("panic".into())));
                }
            }
        }
        Ok((v, None))
    });
    if !alter.is_null() {
        let (altered, read) = RecNet::altered(&nets, alter);
        let last = |i: usize| res[i].as_ref().ok().and_then(|r| r.0.get(steps.len() - 1));
        let to = last(alter["to"].as_u64().unwrap() as usize);
        emit(json!({"ev": "count", "ty": "shamir", "what": steps.last().unwrap()["op"], "altered": altered, "read": read,
            "ok": matches!(to, Some(Ok(_))), "why": match to { Some(Err(e)) => e.clone(), _ => String::new() }}));
        return;
    }
    let mut rec = vec![];
    let mut fatal = None;
    for (i, r) in res.iter().enumerate() {
        if let Err(e) = r {
            fatal = Some(format!("party {i}: {e}"));
        }
    }
    emit(json!({"ev": "start", "p": job["p"], "n": n, "t": t, "pre": pre, "fatal": fatal.clone().unwrap_or_default()}));
    if fatal.is_some() {
        return;
    }
    let ps: Vec<_> = res.into_iter().map(|r| r.unwrap().0).collect();
    for (k, st) in steps.iter().enumerate() {
        let at: Vec<Option<&Result<(Out, usize, usize), String>>> = ps.iter().map(|v| v.get(k)).collect();
        let ok: Vec<bool> = at.iter().map(|x| matches!(x, Some(Ok(_)))).collect();
        let get = |f: &dyn Fn(&Out) -> Vec<u64>| -> Vec<Vec<u64>> {
            at.iter().map(|x| if let Some(Ok((o, _, _))) = x { f(o) } else { vec![] }).collect()
        };
        let msgs: usize = at.iter().map(|x| if let Some(Ok((_, m, _))) = x { *m } else { 0 }).sum();
        let why: Vec<String> = at.iter().filter_map(|x| if let Some(Err(e)) = x { Some(e.clone()) } else { None }).take(1).collect();
        rec.push(json!({"ev": "step", "op": st["op"], "d": ints(&st["d"]), "a": ints(&st["a"]), "b": ints(&st["b"]), "c": ints(&st["c"]),
            "f": st["f"].as_u64().unwrap_or(0), "ok": ok, "out": get(&|o| o.out.clone()), "open": get(&|o| o.open.clone()),
            "msgs": msgs, "why": why}));
    }
    for r in rec {
        emit(r);
    }
    let unread: usize = nets.iter().map(|n| n.unread()).sum();
    let mut end = json!({"ev": "end", "unread": unread});
    if keep {
        let views: Vec<Value> = nets
            .iter()
            .map(|n| {
                let l = n.log.lock().unwrap();
                json!(l.received.iter().map(|(f, b)| json!([f, b.to_vec()])).collect::<Vec<_>>())
            })
            .collect();
        end["views"] = json!(views);
    }
    emit(end);
}

/// Repeats one program many times and counts, per party, how often each projection of its view occurs.
/// A view consists of the party's shares after each step named in "watch" and of every field element received.
fn hist<F: PrimeField, C: Group<F>>(job: &Value, emit: &mut dyn FnMut(Value)) {
    let runs = job["runs"].as_u64().unwrap();
    let watch: Vec<usize> = ints(&job["watch"]).iter().map(|x| *x as usize).collect();
    let elem = F::zero().serialized_size(ark_serialize::Compress::No);
    let point = C::zero().serialized_size(ark_serialize::Compress::No);
    // a projection names the coordinates counted together: (party, position in its view)
    let proj: Vec<Vec<(usize, usize)>> = job["proj"]
        .as_array()
        .map(|a| a.iter().map(|x| x.as_array().unwrap().iter().map(|y| (y[0].as_u64().unwrap() as usize, y[1].as_u64().unwrap() as usize)).collect()).collect())
        .unwrap_or_default();
    let mut counts: Vec<HashMap<Vec<u64>, u64>> = vec![HashMap::new(); proj.len()];
    let mut lens: Vec<usize> = vec![];
    let mut bad = 0u64;
    for k in 0..runs {
        let mut j = job.clone();
        j["seed"] = json!(job["seed"].as_u64().unwrap_or(1).wrapping_mul(1_000_003).wrapping_add(k));
        j["view"] = json!(true);
        let mut recs = vec![];
        prog::<F, C>(&j, &mut |v| recs.push(v));
        let n = j["n"].as_u64().unwrap() as usize;
        let end = recs.last().unwrap();
        if end["ev"] != "end" || recs.iter().any(|r| r["ev"] == "step" && r["ok"].as_array().unwrap().iter().any(|x| x == false)) {
            bad += 1;
            continue;
        }
        let mut views: Vec<Vec<u64>> = vec![vec![]; n];
        for w in &watch {
            for i in 0..n {
                views[i].extend(ints(&recs[w + 1]["out"][i]));
            }
        }
        for i in 0..n {
            for m in end["views"][i].as_array().unwrap() {
                let b = ints(&m[1]);
                if b.len() == 8 + 32 {
                    continue; // an exchanged seed
                }
                let bytes: Vec<u8> = b.iter().map(|x| *x as u8).collect();
                let counted = b.len() > 8 && b.len() == 8 + point * (b[0] as usize);
                if point != elem && (counted || b.len() == point) {
                    for e in bytes[if counted { 8 } else { 0 }..].chunks(point) {
                        views[i].push(C::deserialize_uncompressed_unchecked(e).map(|x| x.dlog() as u64).unwrap_or(8888));
                    }
                    continue;
                }
                // either a counted vector or a bare element
                let body = if b.len() >= 8 && b.len() == 8 + elem * (b[0] as usize) { &b[8..] } else { &b[..] };
                for e in body.chunks(elem) {
                    views[i].push(e.iter().rev().fold(0u64, |a, x| a * 256 + x));
                }
            }
        }
        if job["spread"].as_bool().unwrap_or(false) {
            // one run with long vectors: the decoded messages themselves
            let msgs: Vec<Vec<u64>> = end["views"]
                .as_array()
                .unwrap()
                .iter()
                .flat_map(|v| v.as_array().unwrap().iter())
                .map(|m| ints(&m[1]).iter().map(|x| *x as u8).collect::<Vec<u8>>())
                .filter_map(|b| Vec::<F>::deserialize_uncompressed_unchecked(&b[..]).ok())
                .map(|v| v.iter().map(small).map(|x| x as u64).collect())
                .collect();
            emit(json!({"ev": "spread", "msgs": msgs}));
            return;
        }
        lens = views.iter().map(|v| v.len()).collect();
        for (c, idx) in counts.iter_mut().zip(&proj) {
            let key: Vec<u64> = idx.iter().map(|(q, i)| views[*q].get(*i).copied().unwrap_or(9999)).collect();
            *c.entry(key).or_default() += 1;
        }
    }
    emit(json!({"ev": "hist", "lens": lens, "bad": bad, "runs": runs,
        "counts": counts.iter().map(|c| c.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>()).collect::<Vec<_>>()}));
}

fn share<F: PrimeField, C: Group<F>>(job: &Value, emit: &mut dyn FnMut(Value)) {
    let n = job["n"].as_u64().unwrap() as usize;
    let t = job["t"].as_u64().unwrap() as usize;
    let vals = ints(&job["vals"]);
    let kind = job["what"].as_str().unwrap();
    let mut rng = ChaCha12Rng::seed_from_u64(job["seed"].as_u64().unwrap_or(1));
    let fs: Vec<F> = vals.iter().map(|x| F::from(*x)).collect();
    let tests = job["tests"].as_array().unwrap();
    let run = |rng: &mut ChaCha12Rng| -> (Vec<Vec<u64>>, Vec<Vec<i64>>) {
        // shares[party][value]; a test names the shares used, the positions claimed for them, and per-share lengths
        match kind {
            "vec" => {
                let sh = shamir::share_field_elements(&fs, t, n, rng);
                let res = tests
                    .iter()
                    .map(|x| {
                        let (si, co) = (ints(&x["sh"]), ints(&x["co"]).iter().map(|x| *x as usize).collect::<Vec<_>>());
                        let cut = ints(&x["cut"]);
                        let v: Vec<Vec<S<F>>> = si
                            .iter()
                            .enumerate()
                            .map(|(k, i)| {
                                let mut y = sh[*i as usize - 1].clone();
                                if let Some(l) = cut.get(k) {
                                    y.truncate(*l as usize);
                                }
                                y
                            })
                            .collect();
                        match quiet(|| shamir::combine_field_elements(&v, &co, t)) {
                            Ok(Ok(r)) => r.iter().map(|x| small(x) as i64).collect(),
                            Ok(Err(_)) => vec![-1],
                            Err(_) => vec![-3],
                        }
                    })
                    .collect();
                (sh.iter().map(|v| v.iter().map(|x| small(&x.a)).collect()).collect(), res)
            }
            "one" => {
                let sh = shamir::share_field_element(fs[0], t, n, rng);
                let res = tests
                    .iter()
                    .map(|x| {
                        let (si, co) = (ints(&x["sh"]), ints(&x["co"]).iter().map(|x| *x as usize).collect::<Vec<_>>());
                        let v: Vec<S<F>> = si.iter().map(|i| sh[*i as usize - 1]).collect();
                        match quiet(|| shamir::combine_field_element(&v, &co, t)) {
                            Ok(Ok(r)) => vec![small(&r) as i64],
                            Ok(Err(_)) => vec![-1],
                            Err(_) => vec![-3],
                        }
                    })
                    .collect();
                (sh.iter().map(|x| vec![small(&x.a)]).collect(), res)
            }
            "raw" => {
                let sh = shamir::share(fs[0], n, t, rng);
                let res = tests
                    .iter()
                    .map(|x| {
                        let (si, co) = (ints(&x["sh"]), ints(&x["co"]).iter().map(|x| *x as usize).collect::<Vec<_>>());
                        if si.len() != co.len() || si.len() < t + 1 {
                            return vec![-1];
                        }
                        let v: Vec<F> = si.iter().map(|i| sh[*i as usize - 1]).collect();
                        let l = shamir::lagrange_from_coeff(&co);
                        vec![small(&shamir::reconstruct(&v, &l)) as i64]
                    })
                    .collect();
                (sh.iter().map(|x| vec![small(x)]).collect(), res)
            }
            "rawpoint" | "point" => {
                let sh: Vec<ShamirPointShare<C>> = if kind == "point" {
                    shamir::share_curve_point(C::of(vals[0]), t, n, rng)
                } else {
                    shamir::share_point(C::of(vals[0]), n, t, rng).into_iter().map(|a| ShamirPointShare { a }).collect()
                };
                let res = tests
                    .iter()
                    .map(|x| {
                        let (si, co) = (ints(&x["sh"]), ints(&x["co"]).iter().map(|x| *x as usize).collect::<Vec<_>>());
                        let v: Vec<ShamirPointShare<C>> = si.iter().map(|i| ShamirPointShare { a: sh[*i as usize - 1].a }).collect();
                        if kind == "point" {
                            match quiet(|| shamir::combine_curve_point(&v, &co, t)) {
                                Ok(Ok(r)) => vec![r.dlog() as i64],
                                Ok(Err(_)) => vec![-1],
                            Err(_) => vec![-3],
                            }
                        } else {
                            if si.len() != co.len() || si.len() < t + 1 {
                                return vec![-1];
                            }
                            let l: Vec<F> = shamir::lagrange_from_coeff(&co);
                            let v: Vec<C> = v.iter().map(|x| x.a).collect();
                            vec![shamir::reconstruct_point(&v, &l).dlog() as i64]
                        }
                    })
                    .collect();
                (sh.iter().map(|x| vec![x.a.dlog()]).collect(), res)
            }
            "zeros" => {
                // a sharing whose shares at the last t positions are zero
                let zp: Vec<usize> = (n - t + 1..=n).collect();
                let sp: Vec<usize> = (1..=n - t).collect();
                let mut sh: Vec<F> = shamir::share_with_zeros(&fs[0], &zp, &sp);
                sh.resize(n, F::zero());
                let res = tests
                    .iter()
                    .map(|x| {
                        let (si, co) = (ints(&x["sh"]), ints(&x["co"]).iter().map(|x| *x as usize).collect::<Vec<_>>());
                        if si.len() != co.len() || si.len() < t + 1 {
                            return vec![-1];
                        }
                        let v: Vec<S<F>> = si.iter().map(|i| S::new(sh[*i as usize - 1])).collect();
                        match shamir::combine_field_element(&v, &co, t) {
                            Ok(r) => vec![small(&r) as i64],
                            _ => vec![-1],
                        }
                    })
                    .collect();
                (sh.iter().map(|x| vec![small(x)]).collect(), res)
            }
            "interp" => {
                // polynomial through (position, share) pairs, evaluated again at every position
                let sh = shamir::share(fs[0], n, t, rng);
                let res = tests
                    .iter()
                    .map(|x| {
                        let (si, co) = (ints(&x["sh"]), ints(&x["co"]).iter().map(|x| *x as usize).collect::<Vec<_>>());
                        if si.len() != co.len() || si.len() < t + 1 {
                            return vec![-1];
                        }
                        let v: Vec<F> = si.iter().map(|i| sh[*i as usize - 1]).collect();
                        let pre = shamir::precompute_interpolation_polys::<F>(&co);
                        let p = shamir::interpolate_poly_from_precomputed(&v, &pre);
                        for i in 0..n {
                            if shamir::evaluate_poly(&p, F::from(i as u64 + 1)) != sh[i] {
                                return vec![-2];
                            }
                        }
                        vec![small(&p[0]) as i64]
                    })
                    .collect();
                (sh.iter().map(|x| vec![small(x)]).collect(), res)
            }
            _ => panic!("unknown kind"),
        }
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&mut rng)));
    match r {
        Ok((sh, res)) => emit(json!({"ev": "share", "p": job["p"], "n": n, "t": t, "what": kind, "vals": vals, "shares": sh,
            "tests": tests.iter().zip(res).map(|(x, r)| json!({"sh": ints(&x["sh"]), "co": ints(&x["co"]), "cut": ints(&x["cut"]), "res": r})).collect::<Vec<_>>()})),
        Err(_) => emit(json!({"ev": "share", "p": job["p"], "n": n, "t": t, "what": kind, "vals": vals, "shares": [], "tests": []})),
    }
}

/// Large-field run of a draw history: equal values get equal numbers, so that freshness can be judged without big numbers.
fn fresh(job: &Value, emit: &mut dyn FnMut(Value)) {
    use ark_bn254::Fr;
    let n = job["n"].as_u64().unwrap() as usize;
    let t = job["t"].as_u64().unwrap() as usize;
    let pre = job["pre"].as_u64().unwrap_or(0) as usize;
    let steps = job["prog"].as_array().unwrap();
    let nets = RecNet::mesh(n, false);
    let res = parties(nets.iter().collect(), |_, net: &RecNet| -> eyre::Result<Vec<Vec<Fr>>> {
        let state: ShamirState<Fr> = ShamirPreprocessing::new(n, t, pre, net)?.into();
        let mut st = vec![state];
        let mut cur = 0usize;
        let mut out = vec![];
        for s in steps {
            let c = ints(&s["c"]);
            let mut v = vec![];
            match s["op"].as_str().unwrap() {
                "pair" => {
                    let (x, y) = st[cur].get_pair(net)?;
                    v = vec![x, y];
                }
                "rand" => v = vec![st[cur].rand(net)?.a],
                "buffer" => st[cur].buffer_triples(net, c[0] as usize)?,
                "fork" => {
                    let x = st[cur].fork(c[0] as usize)?;
                    st.push(x);
                }
                "use" => cur = c[0] as usize,
                _ => {}
            }
            out.push(v);
        }
        Ok(out)
    });
    let fatal = res.iter().filter_map(|r| r.as_ref().err()).next().cloned();
    if let Some(f) = fatal {
        emit(json!({"ev": "fresh", "fatal": f, "n": n, "t": t, "draws": []}));
        return;
    }
    let ps: Vec<_> = res.into_iter().map(|r| r.unwrap()).collect();
    let mut ids: HashMap<Fr, u64> = HashMap::new();
    let mut id = |x: Fr| {
        let k = ids.len() as u64 + 1;
        *ids.entry(x).or_insert(k)
    };
    let co_t: Vec<usize> = (1..=t + 1).collect();
    let co_2t: Vec<usize> = (1..=2 * t + 1).collect();
    let mut draws = vec![];
    for k in 0..steps.len() {
        if ps[0][k].is_empty() {
            continue;
        }
        let share_t: Vec<Fr> = ps.iter().map(|p| p[k][0]).collect();
        let sec = |sh: &[Fr], co: &[usize]| shamir::reconstruct(&sh[..co.len()], &shamir::lagrange_from_coeff::<Fr>(co));
        let v = sec(&share_t, &co_t);
        let v2 = if ps[0][k].len() > 1 {
            let s2: Vec<Fr> = ps.iter().map(|p| p[k][1]).collect();
            sec(&s2, &co_2t)
        } else {
            v
        };
        draws.push(json!({"secret": id(v), "secret2": id(v2), "shares": share_t.iter().map(|x| id(*x)).collect::<Vec<_>>()}));
    }
    let _ = Fr::rand(&mut ChaCha12Rng::seed_from_u64(1));
    emit(json!({"ev": "fresh", "fatal": "", "n": n, "t": t, "draws": draws}));
}

use ark_serialize::CanonicalDeserialize;

fn main() {
    main_loop(|job, emit| {
        let kind = job["kind"].as_str().unwrap_or("prog");
        if kind == "fresh" {
            return fresh(job, emit);
        }
        macro_rules! go {
            ($f:ty, $g:ty) => {
                match kind {
                    "prog" => prog::<$f, $g>(job, emit),
                    "hist" => hist::<$f, $g>(job, emit),
                    _ => share::<$f, $g>(job, emit),
                }
            };
        }
        match job["p"].as_u64().unwrap() {
            5 => go!(F5, G5),
            11 => go!(F11, G11),
            257 => go!(F257, G257),
            40961 => go!(F40961, GBig),
            p => panic!("no field {p}"),
        }
    });
}

#[allow(unused)]
fn _g<A: AffineRepr>(_: A) {}
