//! P01, P02, P04: Groth16.
use ark_ec::pairing::Pairing;
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ff::PrimeField;
use ark_groth16::{Proof, ProvingKey, VerifyingKey};
use co_circom_types::{Rep3SharedWitness, ShamirSharedWitness, SharedWitness};
use circom_types::plonk::{Additions, CircomPolynomial, PlonkProof, VerificationKey as JsonVerificationKey, VerifyingKey as PVerifyingKey, Zkey};
use co_groth16::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use co_plonk::mpc::{CircomPlonkProver, Rep3PlonkDriver, ShamirPlonkDriver};
use co_plonk::{Plonk, Rep3CoPlonk, ShamirCoPlonk};
use ark_ec::AffineRepr;
use ark_ff::{AdditiveGroup, Field};
use ark_poly::univariate::DensePolynomial;
use std::sync::Arc;
use mpc_core::protocols::rep3::{self, Rep3State, conversion::A2BType};
use mpc_core::protocols::shamir::{self, ShamirPreprocessing, ShamirState};
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;
use serde_json::{Value, json};
use vcircom::*;

type Emit<'a> = &'a mut dyn FnMut(Value);

fn u(j: &Value, k: &str) -> usize {
    j[k].as_u64().unwrap_or_else(|| panic!("{k}")) as usize
}
fn fs<F: PrimeField>(v: &Value) -> Vec<F> {
    ints(v).into_iter().map(F::from).collect()
}
fn matrix<F: PrimeField>(v: &Value) -> Vec<Vec<(F, usize)>> {
    v.as_array().unwrap().iter().map(|r| r.as_array().unwrap().iter().map(|e| (F::from(e[0].as_u64().unwrap()), e[1].as_u64().unwrap() as usize)).collect()).collect()
}
fn matrices<F: PrimeField>(j: &Value) -> ConstraintMatrices<F> {
    let (a, b, c) = (matrix::<F>(&j["a"]), matrix::<F>(&j["b"]), matrix::<F>(&j["c"]));
    let nz = |m: &Vec<Vec<(F, usize)>>| m.iter().map(|r| r.len()).sum();
    ConstraintMatrices {
        num_instance_variables: u(j, "ni"),
        num_witness_variables: u(j, "nw"),
        num_constraints: u(j, "nc"),
        a_num_non_zero: nz(&a),
        b_num_non_zero: nz(&b),
        c_num_non_zero: nz(&c),
        a,
        b,
        c,
    }
}
fn err_of<T>(r: &Result<T, String>) -> String {
    r.as_ref().err().cloned().unwrap_or_default()
}

// ------------------------------------------------------------------------------------------------ P02
fn qap<P: Pairing, R: R1CSToQAP>(j: &Value, emit: Emit) {
    let m = matrices::<P::ScalarField>(j);
    let z: Vec<P::ScalarField> = fs(&j["z"]);
    let ni = u(j, "ni");
    let (pb, wit) = z.split_at(ni);
    let mut rng = ChaCha12Rng::seed_from_u64(u(j, "seed") as u64);
    let outs: Vec<Value> = j["modes"]
        .as_array()
        .unwrap()
        .iter()
        .map(|mode| {
            let (n, t) = (u(mode, "n"), u(mode, "t"));
            let rs: Vec<Result<Vec<P::ScalarField>, String>> = match mode["m"].as_str().unwrap() {
                "plain" => parties(vec![()], |_, _| R::witness_map_from_matrices::<P, PlainGroth16Driver>(&mut (), &m, pb, wit)),
                "rep3" => {
                    let sh = rep3::share_field_elements(wit, &mut rng);
                    let nets = RecNet::mesh(3, false);
                    parties(sh.into_iter().zip(nets).collect(), |_, (w, net)| {
                        let mut st = Rep3State::new(&net, A2BType::default())?;
                        R::witness_map_from_matrices::<P, Rep3Groth16Driver>(&mut st, &m, pb, &w)
                    })
                }
                "shamir" => {
                    let sh = shamir::share_field_elements(wit, t, n, &mut rng);
                    let nets = RecNet::mesh(n, false);
                    parties(sh.into_iter().zip(nets).collect(), |_, (w, net)| {
                        let mut st: ShamirState<P::ScalarField> = ShamirPreprocessing::new(n, t, 1, &net)?.into();
                        R::witness_map_from_matrices::<P, ShamirGroth16Driver>(&mut st, &m, pb, &w)
                    })
                }
                x => panic!("{x}"),
            };
            let errs: Vec<String> = rs.iter().map(err_of).filter(|e| !e.is_empty()).collect();
            let h: Vec<Vec<u64>> = rs.into_iter().map(|r| r.unwrap_or_default().iter().map(small).collect()).collect();
            json!({"m": mode["m"], "n": n, "t": t, "errs": errs, "h": h})
        })
        .collect();
    emit(json!({"ev": "qap", "red": j["red"], "p": j["p"], "nc": j["nc"], "ni": j["ni"], "nw": j["nw"],
        "a": j["a"], "b": j["b"], "c": j["c"], "z": j["z"], "outs": outs}));
}

// ------------------------------------------------------------------------------------------------ P01, P04
fn pts<P: Toy>(v: &Value) -> Vec<P::G1Affine> {
    ints(v).into_iter().map(P::p1).collect()
}
fn vkey<P: Toy>(j: &Value) -> VerifyingKey<P> {
    let g = |k: &str| j[k].as_u64().unwrap();
    VerifyingKey { alpha_g1: P::p1(g("alpha")), beta_g2: P::p2(g("beta2")), gamma_g2: P::p2(g("gamma")), delta_g2: P::p2(g("delta2")), gamma_abc_g1: pts::<P>(&j["ic"]) }
}
fn pkey<P: Toy>(j: &Value) -> ProvingKey<P> {
    let g = |k: &str| j[k].as_u64().unwrap();
    ProvingKey {
        vk: vkey(j),
        beta_g1: P::p1(g("beta1")),
        delta_g1: P::p1(g("delta1")),
        a_query: pts::<P>(&j["aq"]),
        b_g1_query: pts::<P>(&j["bq1"]),
        b_g2_query: ints(&j["bq2"]).into_iter().map(P::p2).collect(),
        h_query: pts::<P>(&j["hq"]),
        l_query: pts::<P>(&j["lq"]),
    }
}
fn groth16<P, C, R: R1CSToQAP>(j: &Value, emit: Emit)
where
    P: Toy + Pairing<G1 = Projective<C>, G1Affine = Affine<C>, G2 = Projective<C>, G2Affine = Affine<C>>,
    C: SWCurveConfig<ScalarField = P::ScalarField>,
{
    let m = matrices::<P::ScalarField>(j);
    let z: Vec<P::ScalarField> = fs(&j["z"]);
    let key = pkey::<P>(&j["key"]);
    let ni = u(j, "ni");
    let mut rng = ChaCha12Rng::seed_from_u64(u(j, "seed") as u64);
    for mode in j["modes"].as_array().unwrap() {
        let (n, t) = (u(mode, "n"), u(mode, "t"));
        // a wrong split of the assignment: more or fewer public inputs, or a longer or shorter witness
        let (dp, dw) = (mode["dp"].as_i64().unwrap_or(0), mode["dw"].as_i64().unwrap_or(0));
        let adj = |v: &[P::ScalarField], d: i64| -> Vec<P::ScalarField> {
            let mut v = v.to_vec();
            let l = (v.len() as i64 + d).max(0) as usize;
            v.resize(l, P::ScalarField::from(1u64));
            v
        };
        let pb = adj(&z[..ni], dp);
        let wit = adj(&z[ni..], dw);
        let reps = mode["reps"].as_u64().unwrap_or(1);
        for _ in 0..reps {
            let name = mode["m"].as_str().unwrap();
            let mesh = |k: usize| RecNet::mesh(k, false).into_iter().zip(RecNet::mesh(k, false));
            let rs: Vec<Result<(Proof<P>, usize), String>> = match name {
                "plain" => parties(vec![()], |_, _| {
                    let w = SharedWitness { public_inputs: pb.clone(), witness: wit.clone() };
                    Ok((Groth16::<P>::plain_prove::<R>(&key, &m, w)?, 0))
                }),
                "rep3" | "bridge" => {
                    let sh = rep3::share_field_elements(&wit, &mut rng);
                    parties(sh.into_iter().zip(mesh(3)).collect(), |_, (w, (n0, n1))| {
                        let w = Rep3SharedWitness { public_inputs: pb.clone(), witness: w };
                        let p = if name == "rep3" { Rep3CoGroth16::<P>::prove::<_, R>(&n0, &n1, &key, &m, w)? } else { Rep3CoGroth16::<P>::prove_with_shamir_bridge::<_, R>(&n0, &n1, &key, &m, w)? };
                        Ok((p, n0.unread() + n1.unread()))
                    })
                }
                "shamir" => {
                    let sh = shamir::share_field_elements(&wit, t, n, &mut rng);
                    parties(sh.into_iter().zip(mesh(n)).collect(), |_, (w, (n0, n1))| {
                        let w = ShamirSharedWitness { public_inputs: pb.clone(), witness: w };
                        let p = ShamirCoGroth16::<P>::prove::<_, R>(&n0, &n1, n, t, &key, &m, w)?;
                        Ok((p, n0.unread() + n1.unread()))
                    })
                }
                x => panic!("{x}"),
            };
            let errs: Vec<String> = rs.iter().map(err_of).filter(|e| !e.is_empty()).collect();
            let panics = errs.iter().filter(|e| e.starts_with("panic")).count();
            let ok: Vec<&(Proof<P>, usize)> = rs.iter().flatten().collect();
            let proofs: Vec<Value> = ok.iter().map(|(p, _)| json!([P::d1(&p.a), P::d2(&p.b), P::d1(&p.c)])).collect();
            let verdict = match ok.first() {
                None => "none",
                Some((p, _)) => verdict(&key.vk, p, &pb[1.min(pb.len())..]),
            };
            emit(json!({"ev": "prove", "red": j["red"], "p": P::ORDER, "nc": j["nc"], "ni": j["ni"], "nw": j["nw"], "a": j["a"], "b": j["b"], "c": j["c"], "z": j["z"], "key": j["key"],
                "toxic": j["toxic"], "mode": name, "n": n, "t": t, "dp": dp, "dw": dw, "parties": rs.len(), "nerr": errs.len(), "panics": panics, "err": errs.first().cloned().unwrap_or_default(),
                "proofs": proofs, "verdict": verdict, "group": mode["group"].as_u64().unwrap_or(0)}));
        }
    }
}
fn verdict<P: Toy>(vk: &VerifyingKey<P>, p: &Proof<P>, pb: &[P::ScalarField]) -> &'static str {
    match quiet(|| Groth16::<P>::verify(vk, p, pb)) {
        Ok(Ok(())) => "accept",
        Ok(Err(co_circom_types::VerificationError::InvalidProof)) => "reject",
        Ok(Err(_)) => "error",
        Err(()) => "panic",
    }
}
fn verify<P: Toy>(j: &Value, emit: Emit) {
    let vk = vkey::<P>(&j["key"]);
    let got: Vec<Value> = j["cases"]
        .as_array()
        .unwrap()
        .iter()
        .map(|c| {
            let x = ints(&c["proof"]);
            let p = Proof { a: P::p1(x[0]), b: P::p2(x[1]), c: P::p1(x[2]) };
            json!({"proof": x, "pub": c["pub"], "verdict": verdict(&vk, &p, &fs::<P::ScalarField>(&c["pub"]))})
        })
        .collect();
    emit(json!({"ev": "verify", "p": P::ORDER, "key": j["key"], "cases": got}));
}


// ------------------------------------------------------------------------------------------------ P03, P04: PLONK
type F = F40961;
type Q = P40961;
fn f1(v: u64) -> F {
    F::from(v)
}
/// coefficients from the values on the domain generated by w, and the values on the domain generated by w4
fn circom_poly(evals: &[u64], w: F, w4: F) -> CircomPolynomial<F> {
    let n = evals.len();
    let (wi, ni) = (w.inverse().unwrap(), F::from(n as u64).inverse().unwrap());
    let at = |c: &[F], x: F| c.iter().rev().fold(F::ZERO, |a, b| a * x + b);
    let e: Vec<F> = evals.iter().map(|v| f1(*v)).collect();
    let coeffs: Vec<F> = (0..n).map(|i| at(&e, wi.pow([i as u64])) * ni).collect();
    let evaluations = (0..4 * n).map(|i| at(&coeffs, w4.pow([i as u64]))).collect();
    CircomPolynomial { coeffs: DensePolynomial { coeffs }, evaluations }
}
fn eval(p: &CircomPolynomial<F>, x: F) -> u64 {
    small(&p.coeffs.coeffs.iter().rev().fold(F::ZERO, |a, b| a * x + b))
}
fn xy(p: &Affine<E40961>) -> Value {
    match p.xy() {
        Some((x, y)) => json!([small(&x), small(&y)]),
        None => json!([]),
    }
}
fn zkey(j: &Value) -> Zkey<Q> {
    let n = u(j, "N");
    let w4 = f1(u(j, "w4") as u64);
    let w = w4.pow([4]);
    let tau = f1(u(j, "tau") as u64);
    let cp = |v: &Value| circom_poly(&ints(v), w, w4);
    let [qm, ql, qr, qo, qc] = std::array::from_fn(|i| cp(&j["q"][i]));
    let [s1, s2, s3] = std::array::from_fn(|i| cp(&j["s"][i]));
    let com = |p: &CircomPolynomial<F>| Q::p1(eval(p, tau));
    let vk = PVerifyingKey {
        k1: f1(u(j, "k1") as u64),
        k2: f1(u(j, "k2") as u64),
        qm: com(&qm),
        ql: com(&ql),
        qr: com(&qr),
        qo: com(&qo),
        qc: com(&qc),
        s1: com(&s1),
        s2: com(&s2),
        s3: com(&s3),
        x_2: Q::p2(small(&tau)),
    };
    let npub = u(j, "npub");
    let map = |v: &Value| ints(v).into_iter().map(|x| x as usize).collect();
    Zkey {
        n_vars: u(j, "nvars"),
        n_public: npub,
        domain_size: j["domain"].as_u64().unwrap_or(n as u64) as usize,
        pow: n.ilog2() as usize,
        n_additions: j["adds"].as_array().unwrap().len(),
        n_constraints: j["map"][0].as_array().unwrap().len(),
        verifying_key: vk,
        additions: j["adds"]
            .as_array()
            .unwrap()
            .iter()
            .map(|a| {
                let a = ints(a);
                Additions { signal_id1: a[0] as u32, signal_id2: a[1] as u32, factor1: f1(a[2]), factor2: f1(a[3]) }
            })
            .collect(),
        map_a: map(&j["map"][0]),
        map_b: map(&j["map"][1]),
        map_c: map(&j["map"][2]),
        qm_poly: qm,
        ql_poly: ql,
        qr_poly: qr,
        qo_poly: qo,
        qc_poly: qc,
        s1_poly: s1,
        s2_poly: s2,
        s3_poly: s3,
        lagrange: (0..npub).map(|k| circom_poly(&(0..n).map(|i| (i == k) as u64).collect::<Vec<_>>(), w, w4)).collect(),
        p_tau: (0..n + 6).map(|i| Q::p1(small(&tau.pow([i as u64])))).collect(),
    }
}
/// [qm ql qr qo qc s1 s2 s3], k1, k2, x2, power, n_public
fn pvk(pts: &[u64], k1: u64, k2: u64, x2: u64, power: u64, npub: u64) -> JsonVerificationKey<Q> {
    serde_json::from_value(json!({"protocol": "plonk", "curve": "toy", "nPublic": npub, "power": power, "k1": k1.to_string(), "k2": k2.to_string(),
        "Qm": pts[0], "Ql": pts[1], "Qr": pts[2], "Qo": pts[3], "Qc": pts[4], "S1": pts[5], "S2": pts[6], "S3": pts[7], "X_2": x2, "w": "0"}))
    .unwrap()
}
fn vk_points(vk: &JsonVerificationKey<Q>) -> [Affine<E40961>; 8] {
    [vk.qm, vk.ql, vk.qr, vk.qo, vk.qc, vk.s1, vk.s2, vk.s3]
}
/// a b c z t1 t2 t3 wxi wxiw, then the evaluations a b c s1 s2 zw
fn flat(p: &PlonkProof<Q>) -> Vec<u64> {
    let mut v: Vec<u64> = points(p).iter().map(Q::d1).collect();
    v.extend([p.eval_a, p.eval_b, p.eval_c, p.eval_s1, p.eval_s2, p.eval_zw].iter().map(small));
    v
}
fn points(p: &PlonkProof<Q>) -> [Affine<E40961>; 9] {
    [p.a, p.b, p.c, p.z, p.t1, p.t2, p.t3, p.wxi, p.wxiw]
}
fn unflat(v: &[u64]) -> PlonkProof<Q> {
    let [a, b, c, z, t1, t2, t3, wxi, wxiw] = std::array::from_fn(|i| Q::p1(v[i]));
    let [eval_a, eval_b, eval_c, eval_s1, eval_s2, eval_zw] = std::array::from_fn(|i| f1(v[9 + i]));
    PlonkProof { a, b, c, z, t1, t2, t3, wxi, wxiw, eval_a, eval_b, eval_c, eval_s1, eval_s2, eval_zw, protocol: "plonk".into(), curve: "toy".into() }
}
fn pverdict(vk: &JsonVerificationKey<Q>, p: &PlonkProof<Q>, pb: &[F]) -> &'static str {
    match quiet(|| Plonk::<Q>::verify(vk, p, pb)) {
        Ok(Ok(())) => "accept",
        Ok(Err(co_circom_types::VerificationError::InvalidProof)) => "reject",
        Ok(Err(_)) => "error",
        Err(()) => "panic",
    }
}
fn case(vk: &JsonVerificationKey<Q>, v: &[u64], pb: &[u64]) -> Value {
    let p = unflat(v);
    let pubs: Vec<F> = pb.iter().map(|x| f1(*x)).collect();
    json!({"proof": v, "xy": points(&p).iter().map(xy).collect::<Vec<_>>(), "pub": pb, "verdict": pverdict(vk, &p, &pubs)})
}
fn vk_json(vk: &JsonVerificationKey<Q>) -> Value {
    let pts = vk_points(vk);
    json!({"pts": pts.iter().map(Q::d1).collect::<Vec<_>>(), "xy": pts.iter().map(xy).collect::<Vec<_>>(),
        "k1": small(&vk.k1), "k2": small(&vk.k2), "x2": Q::d2(&vk.x2), "power": vk.power, "npub": vk.n_public})
}
fn plonk(j: &Value, emit: Emit) {
    let zk = Arc::new(zkey(j));
    let npub = u(j, "npub");
    let z: Vec<F> = fs(&j["z"]);
    let v = &zk.verifying_key;
    let pts: Vec<u64> = [v.qm, v.ql, v.qr, v.qo, v.qc, v.s1, v.s2, v.s3].iter().map(Q::d1).collect();
    let vk = pvk(&pts, small(&v.k1), small(&v.k2), Q::d2(&v.x_2), zk.pow as u64, npub as u64);
    let mut rng = ChaCha12Rng::seed_from_u64(u(j, "seed") as u64);
    for mode in j["modes"].as_array().unwrap() {
        let (n, t) = (u(mode, "n"), u(mode, "t"));
        let (dp, dw) = (mode["dp"].as_i64().unwrap_or(0), mode["dw"].as_i64().unwrap_or(0));
        let adj = |v: &[F], d: i64| -> Vec<F> {
            let mut v = v.to_vec();
            let l = (v.len() as i64 + d).max(0) as usize;
            v.resize(l, f1(1));
            v
        };
        let pb = adj(&z[..npub + 1], dp);
        let wit = adj(&z[npub + 1..], dw);
        for _ in 0..mode["reps"].as_u64().unwrap_or(1) {
            let name = mode["m"].as_str().unwrap();
            let mut run = || -> Vec<Result<(PlonkProof<Q>, usize), String>> {
                let mesh = |k: usize| -> Vec<[RecNet; 8]> {
                    let mut m: Vec<_> = (0..8).map(|_| RecNet::mesh(k, false).into_iter()).collect();
                    (0..k).map(|_| std::array::from_fn(|i| m[i].next().unwrap())).collect()
                };
                let left = |nets: &[RecNet; 8]| nets.iter().map(|x| x.unread()).sum();
                match name {
                    "plain" => parties(vec![()], |_, _| {
                        let w = SharedWitness { public_inputs: pb.clone(), witness: wit.clone() };
                        Ok((Plonk::<Q>::plain_prove(zk.clone(), w)?, 0))
                    }),
                    "rep3" => {
                        let sh = rep3::share_field_elements(&wit, &mut rng);
                        parties(sh.into_iter().zip(mesh(3)).collect(), |_, (w, nets)| {
                            let w = Rep3SharedWitness { public_inputs: pb.clone(), witness: w };
                            let p = Rep3CoPlonk::<Q>::prove(&nets, zk.clone(), w)?;
                            Ok((p, left(&nets)))
                        })
                    }
                    "shamir" => {
                        let sh = shamir::share_field_elements(&wit, t, n, &mut rng);
                        parties(sh.into_iter().zip(mesh(n)).collect(), |_, (w, nets)| {
                            let w = ShamirSharedWitness { public_inputs: pb.clone(), witness: w };
                            let p = ShamirCoPlonk::<Q>::prove(&nets, n, t, zk.clone(), w)?;
                            Ok((p, left(&nets)))
                        })
                    }
                    x => panic!("{x}"),
                }
            };
            let mut rs = run();
            let mut tries = 1;
            // a random value that has to be inverted is zero now and then in this small field
            while tries < 4 && rs.iter().any(|r| r.is_err()) {
                rs = run();
                tries += 1;
            }
            let errs: Vec<String> = rs.iter().map(err_of).filter(|e| !e.is_empty()).collect();
            let panics = errs.iter().filter(|e| e.starts_with("panic")).count();
            let ok: Vec<&(PlonkProof<Q>, usize)> = rs.iter().flatten().collect();
            let proofs: Vec<Vec<u64>> = ok.iter().map(|(p, _)| flat(p)).collect();
            let left: usize = ok.iter().map(|(_, l)| *l).sum();
            let pubs: Vec<u64> = pb[1.min(pb.len())..].iter().map(small).collect();
            let cs: Vec<Value> = proofs.first().map(|p| case(&vk, p, &pubs)).into_iter().collect();
            let mut rec = json!({"ev": "pprove", "p": Q::ORDER, "vk": vk_json(&vk), "cases": cs,
                "mode": name, "n": n, "t": t, "dp": dp, "dw": dw, "parties": rs.len(), "nerr": errs.len(), "panics": panics, "err": errs.first().cloned().unwrap_or_default(),
                "proofs": proofs, "left": left, "tries": tries, "group": mode["group"].as_u64().unwrap_or(0)});
            for k in ["N", "npub", "nvars", "adds", "map", "q", "k1", "k2", "tau", "z", "w4", "bad"] {
                rec[k] = j[k].clone();
            }
            emit(rec);
            if let (Some(p), Some(ms)) = (proofs.first(), j["muts"].as_array()) {
                let mut cs = vec![];
                for m in ms {
                    let (mut p, mut pb) = (p.clone(), pubs.clone());
                    let d = u(m, "d") as u64;
                    match m["k"].as_str().unwrap() {
                        "proof" => p[u(m, "i")] = (p[u(m, "i")] + d) % Q::ORDER,
                        "swap" => p.swap(u(m, "i"), d as usize),
                        "zero" => p[u(m, "i")] = 0,
                        "mask" => (0..15).filter(|k| d >> k & 1 == 1).for_each(|k| p[k] = 0),
                        "copy" => p[u(m, "i")] = p[d as usize],
                        "neg" => p[u(m, "i")] = (Q::ORDER - p[u(m, "i")]) % Q::ORDER,
                        "pub" => pb[u(m, "i")] = (pb[u(m, "i")] + d) % Q::ORDER,
                        "longer" => pb.push(d),
                        "shorter" => drop(pb.pop()),
                        x => panic!("{x}"),
                    }
                    cs.push(case(&vk, &p, &pb));
                }
                emit(json!({"ev": "pverify", "p": Q::ORDER, "vk": vk_json(&vk), "cases": cs, "made": 0}));
            }
        }
    }
}
// ------------------------------------------------------------------------------------------------ P05
/// The length-prefixed vector of field elements a message consists of, if it is one of `len` elements.
fn vec_of(b: &[u8], len: usize) -> Option<Vec<u64>> {
    let mut r = b;
    (b.len() == len * F::ZERO.uncompressed_size() + 8).then_some(())?;
    let v = Vec::<F>::deserialize_uncompressed_unchecked(&mut r).ok()?;
    (v.len() == len && r.is_empty()).then(|| v.iter().map(small).collect())
}
/// What a message consists of: a kind and the field elements (or logarithms of the points) in it.
fn parts_of<P: Toy>(b: &[u8]) -> (u64, Vec<u64>) {
    fn all<T: CanonicalDeserialize>(b: &[u8]) -> Option<T> {
        let mut r = b;
        T::deserialize_uncompressed(&mut r).ok().filter(|_| r.is_empty())
    }
    if b.len() > 1 << 14 {
        return (0, vec![]);
    }
    let count = b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap()) as usize);
    let (fs, g1, g2) = (P::ScalarField::ZERO.uncompressed_size(), P::p1(0).uncompressed_size(), P::p2(0).uncompressed_size());
    let counted = |size: usize| count.is_some_and(|c| c < 1 << 14 && b.len() == 8 + c * size);
    if counted(fs) && let Some(v) = all::<Vec<P::ScalarField>>(b) {
        return (1, v.iter().map(small).collect());
    }
    if counted(g1) && let Some(v) = all::<Vec<P::G1Affine>>(b) {
        return (2, v.iter().map(P::d1).collect());
    }
    if counted(g2) && let Some(v) = all::<Vec<P::G2Affine>>(b) {
        return (3, v.iter().map(P::d2).collect());
    }
    if b.len() == fs && let Some(v) = all::<P::ScalarField>(b) {
        return (1, vec![small(&v)]);
    }
    // vectors within a vector
    if let Some(v) = all::<Vec<Vec<P::ScalarField>>>(b) {
        return (1, v.iter().flatten().map(small).collect());
    }
    if let Some(v) = all::<Vec<Vec<P::G1Affine>>>(b) {
        return (2, v.iter().flatten().map(P::d1).collect());
    }
    // the two groups may look the same
    if b.len() == g1 && let Some(v) = all::<P::G1Affine>(b) {
        return (2, vec![P::d1(&v)]);
    }
    if b.len() == g2 && let Some(v) = all::<P::G2Affine>(b) {
        return (3, vec![P::d2(&v)]);
    }
    (0, vec![])
}
/// For every party q, every party f and every network: the messages of f that q knows (it got them, or sent them itself),
/// each with its contents in all runs.
fn known<P: Toy>(runs: &[Vec<Vec<Arc<RecNet>>>]) -> Value {
    let n = runs[0][0].len();
    let log = |r: usize, net: usize, to: usize, from: usize| -> Vec<(u64, Vec<u64>)> {
        runs[r][net][to].log.lock().unwrap().received.iter().filter(|x| x.0 == from).map(|x| parts_of::<P>(&x.1)).collect()
    };
    let per = |q: usize, f: usize, net: usize| -> Vec<Value> {
        let mut seen: Vec<Vec<(u64, Vec<u64>)>> = vec![];
        for to in 0..n {
            if to == f || (q != f && to != q) {
                continue;
            }
            let ls: Vec<_> = (0..runs.len()).map(|r| log(r, net, to, f)).collect();
            for k in 0..ls.iter().map(|l| l.len()).min().unwrap_or(0) {
                let m: Vec<_> = ls.iter().map(|l| l[k].clone()).collect();
                if m.iter().all(|x| x.0 == m[0].0 && x.1.len() == m[0].1.len() && !x.1.is_empty()) && !seen.contains(&m) {
                    seen.push(m);
                }
            }
        }
        seen.into_iter().map(|m| json!({"kind": m[0].0, "len": m[0].1.len(), "v": m.into_iter().map(|x| x.1).collect::<Vec<_>>()})).collect()
    };
    json!((0..n).map(|q| (0..runs[0].len()).map(|net| (0..n).map(|f| per(q, f, net)).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>())
}
/// Several proofs of the same statement by the same parties.
fn views<P: Toy>(j: &Value, emit: Emit, nets: usize, prove: impl Fn(&mut ChaCha12Rng, &[Vec<Arc<RecNet>>]) -> Vec<Result<(), String>>) {
    let mut rng = ChaCha12Rng::seed_from_u64(u(j, "seed") as u64);
    let mut runs = vec![];
    let mut errs = vec![];
    for _ in 0..12 {
        let m: Vec<Vec<Arc<RecNet>>> = (0..nets).map(|_| RecNet::mesh(3, true).into_iter().map(Arc::new).collect()).collect();
        let e: Vec<String> = prove(&mut rng, &m).iter().map(err_of).filter(|e| !e.is_empty()).collect();
        if e.is_empty() {
            runs.push(m);
        }
        errs.extend(e);
        if runs.len() == 4 {
            break;
        }
    }
    let full = runs.len() == 4;
    emit(json!({"ev": "views", "p": P::ORDER, "m": j["m"], "sys": j["sys"], "full": full, "err": errs.first().cloned().unwrap_or_default(),
        "known": if full { known::<P>(&runs) } else { json!([]) }}));
}
fn views_groth16<R: R1CSToQAP>(j: &Value, emit: Emit) {
    let m = matrices::<F>(j);
    let z: Vec<F> = fs(&j["z"]);
    let key = pkey::<Q>(&j["key"]);
    let (pb, wit) = z.split_at(u(j, "ni"));
    views::<Q>(j, emit, 2, |rng, nets| {
        let name = j["m"].as_str().unwrap();
        if name == "shamir" {
            let sh = shamir::share_field_elements(wit, 1, 3, rng);
            return parties(sh.into_iter().collect(), |i, w| {
                let w = ShamirSharedWitness { public_inputs: pb.to_vec(), witness: w };
                ShamirCoGroth16::<Q>::prove::<_, R>(&*nets[0][i], &*nets[1][i], 3, 1, &key, &m, w).map(|_| ())
            });
        }
        let sh = rep3::share_field_elements(wit, rng);
        parties(sh.into_iter().collect(), |i, w| {
            let w = Rep3SharedWitness { public_inputs: pb.to_vec(), witness: w };
            let (n0, n1) = (&*nets[0][i], &*nets[1][i]);
            if name == "rep3" { Rep3CoGroth16::<Q>::prove::<_, R>(n0, n1, &key, &m, w)? } else { Rep3CoGroth16::<Q>::prove_with_shamir_bridge::<_, R>(n0, n1, &key, &m, w)? };
            Ok(())
        })
    })
}
/// Lends a network.
struct Ref(Arc<RecNet>);
impl mpc_net::Network for Ref {
    fn id(&self) -> usize {
        self.0.id()
    }
    fn send(&self, to: usize, data: mpc_net::bytes::Bytes) -> eyre::Result<()> {
        self.0.send(to, data)
    }
    fn recv(&self, from: usize) -> eyre::Result<mpc_net::bytes::Bytes> {
        self.0.recv(from)
    }
    fn get_connection_stats(&self) -> mpc_net::ConnectionStats {
        self.0.get_connection_stats()
    }
}
fn lend(nets: &[Vec<Arc<RecNet>>], i: usize) -> [Ref; 8] {
    std::array::from_fn(|k| Ref(nets[k][i].clone()))
}
fn views_plonk(j: &Value, emit: Emit) {
    let zk = Arc::new(zkey(j));
    let z: Vec<F> = fs(&j["z"]);
    let (pb, wit) = z.split_at(u(j, "npub") + 1);
    views::<Q>(j, emit, 8, |rng, nets| {
        if j["m"] == "shamir" {
            let sh = shamir::share_field_elements(wit, 1, 3, rng);
            return parties(sh.into_iter().collect(), |i, w| {
                let w = ShamirSharedWitness { public_inputs: pb.to_vec(), witness: w };
                ShamirCoPlonk::<Q>::prove(&lend(nets, i), 3, 1, zk.clone(), w).map(|_| ())
            });
        }
        let sh = rep3::share_field_elements(wit, rng);
        parties(sh.into_iter().collect(), |i, w| {
            let w = Rep3SharedWitness { public_inputs: pb.to_vec(), witness: w };
            Rep3CoPlonk::<Q>::prove(&lend(nets, i), zk.clone(), w).map(|_| ())
        })
    })
}
/// The running products of three vectors of shared values: what every party gets, and the vectors every pair exchanges.
fn grand(j: &Value, emit: Emit) {
    let xs: Vec<Vec<F>> = (1..=3).map(|k| fs(&j[format!("a{k}")])).collect();
    let (len, n, t, inv) = (xs[0].len(), u(j, "n"), u(j, "t"), j["inv"].as_bool().unwrap());
    let mut rng = ChaCha12Rng::seed_from_u64(u(j, "seed") as u64);
    let trivial = j["trivial"].as_bool().unwrap();
    let mut tries = 0;
    loop {
        tries += 1;
        let nets = RecNet::mesh(n, true);
        let rs: Vec<Result<Vec<Vec<u64>>, String>> = match j["m"].as_str().unwrap() {
            "shamir" => {
                let mut sh: Vec<Vec<Vec<_>>> = vec![vec![]; n];
                for x in &xs {
                    let s = if trivial { vec![x.iter().map(|x| shamir::ShamirPrimeFieldShare::new(*x)).collect(); n] } else { shamir::share_field_elements(x, t, n, &mut rng) };
                    s.into_iter().enumerate().for_each(|(i, s)| sh[i].push(s));
                }
                parties(sh.into_iter().zip(&nets).collect(), |_, (w, net)| {
                    let mut st: ShamirState<F> = ShamirPreprocessing::new(n, t, 1, net)?.into();
                    let o = <ShamirPlonkDriver as CircomPlonkProver<Q>>::array_prod_mul(inv, &w[0], &w[1], &w[2], net, &mut st)?;
                    Ok(vec![o.iter().map(|s| small(&s.inner())).collect()])
                })
            }
            "rep3" => {
                let mut sh: Vec<Vec<Vec<_>>> = vec![vec![]; 3];
                for x in &xs {
                    let s = if trivial {
                        [rep3::id::PartyID::ID0, rep3::id::PartyID::ID1, rep3::id::PartyID::ID2]
                            .map(|id| x.iter().map(|x| rep3::arithmetic::promote_to_trivial_share(id, *x)).collect())
                    } else {
                        rep3::share_field_elements(x, &mut rng)
                    };
                    s.into_iter().enumerate().for_each(|(i, s)| sh[i].push(s));
                }
                parties(sh.into_iter().zip(&nets).collect(), |_, (w, net)| {
                    let mut st = Rep3State::new(net, A2BType::default())?;
                    let o = <Rep3PlonkDriver as CircomPlonkProver<Q>>::array_prod_mul(inv, &w[0], &w[1], &w[2], net, &mut st)?;
                    Ok(vec![o.iter().map(|s| small(&s.a)).collect(), o.iter().map(|s| small(&s.b)).collect()])
                })
            }
            x => panic!("{x}"),
        };
        let errs: Vec<String> = rs.iter().map(err_of).filter(|e| !e.is_empty()).collect();
        // a random value that has to be inverted is zero now and then in this small field
        if !errs.is_empty() && tries < 4 {
            continue;
        }
        // vecs[from][to]
        let mut vecs = vec![vec![Vec::<Vec<u64>>::new(); n]; n];
        for (to, net) in nets.iter().enumerate() {
            for (from, b) in &net.log.lock().unwrap().received {
                vecs[*from][to].extend(vec_of(b, len));
            }
        }
        emit(json!({"ev": "grand", "p": Q::ORDER, "m": j["m"], "n": n, "t": t, "inv": inv, "equal": j["equal"], "a1": j["a1"], "a2": j["a2"], "a3": j["a3"],
            "nerr": errs.len(), "err": errs.first().cloned().unwrap_or_default(), "out": rs.into_iter().flatten().collect::<Vec<_>>(), "vecs": vecs}));
        return;
    }
}
fn pverify(j: &Value, emit: Emit) {
    let k = &j["vk"];
    let g = |x: &str| k[x].as_u64().unwrap();
    let vk = pvk(&ints(&k["pts"]), g("k1"), g("k2"), g("x2"), g("power"), g("npub"));
    let cs: Vec<Value> = j["cases"].as_array().unwrap().iter().map(|c| case(&vk, &ints(&c["proof"]), &ints(&c["pub"]))).collect();
    emit(json!({"ev": "pverify", "p": Q::ORDER, "vk": vk_json(&vk), "cases": cs, "made": j["made"]}));
}

fn main() {
    main_loop(|j, emit| match (j["kind"].as_str().unwrap(), j["red"].as_str().unwrap_or(""), j["p"].as_u64().unwrap_or(257)) {
        ("qap", "circom", 257) => qap::<P257, CircomReduction>(j, emit),
        ("qap", "libsnark", 257) => qap::<P257, LibSnarkReduction>(j, emit),
        ("qap", "circom", 40961) => qap::<P40961, CircomReduction>(j, emit),
        ("qap", "libsnark", 40961) => qap::<P40961, LibSnarkReduction>(j, emit),
        ("groth16", "circom", 257) => groth16::<P257, E257, CircomReduction>(j, emit),
        ("groth16", "libsnark", 257) => groth16::<P257, E257, LibSnarkReduction>(j, emit),
        ("groth16", "circom", 40961) => groth16::<P40961, E40961, CircomReduction>(j, emit),
        ("groth16", "libsnark", 40961) => groth16::<P40961, E40961, LibSnarkReduction>(j, emit),
        ("plonk", ..) => plonk(j, emit),
        ("grand", ..) => grand(j, emit),
        ("views", "circom", _) => views_groth16::<CircomReduction>(j, emit),
        ("views", "libsnark", _) => views_groth16::<LibSnarkReduction>(j, emit),
        ("views", ..) => views_plonk(j, emit),
        ("pverify", ..) => pverify(j, emit),
        ("points", ..) => emit(json!({"ev": "points", "xy": (0..Q::ORDER).map(|v| xy(&Q::p1(v))).collect::<Vec<_>>()})),
        ("verify", _, 257) => verify::<P257>(j, emit),
        ("verify", _, 40961) => verify::<P40961>(j, emit),
        x => panic!("{x:?}"),
    });
}
