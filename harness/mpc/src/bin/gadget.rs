//! Executes Poseidon2 permutations and Merkle trees on toy fields, plain and on shares: `gadget JOBS OUT`.
use ark_ff::{BigInteger, PrimeField};
use mpc_core::gadgets::poseidon2::{
    CircomTraceBatchedHasher, CircomTracePlainHasher, CircomTraceShamirHasher, Poseidon2, Poseidon2Params,
};
use mpc_core::protocols::rep3::{self, Rep3PrimeFieldShare, Rep3State, conversion::A2BType};
use mpc_core::protocols::shamir::{self, ShamirPreprocessing, ShamirPrimeFieldShare, ShamirState};
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;
use serde_json::{Value, json};
use vmpc::*;

type SS<F> = ShamirPrimeFieldShare<F>;
type RS<F> = Rep3PrimeFieldShare<F>;
type Emit<'a> = &'a mut dyn FnMut(Value);

fn params<F: PrimeField, const T: usize, const D: u64>(job: &Value) -> &'static Poseidon2Params<F, T, D> {
    let fs = |v: &Value| ints(v).into_iter().map(F::from).collect::<Vec<F>>();
    let arr = |v: &Value| -> [F; T] { fs(v).try_into().unwrap() };
    let leak_v = |v| -> &'static Vec<[F; T]> { Box::leak(Box::new(v)) };
    let int: Vec<F> = fs(&job["int"]);
    Box::leak(Box::new(Poseidon2Params {
        rounds_f_beginning: job["rf1"].as_u64().unwrap() as usize,
        rounds_f_end: job["rf2"].as_u64().unwrap() as usize,
        rounds_p: int.len(),
        mat_internal_diag_m_1: Box::leak(Box::new(arr(&job["diag"]))),
        round_constants_external: leak_v(job["ext"].as_array().unwrap().iter().map(arr).collect()),
        round_constants_internal: Box::leak(Box::new(int)),
    }))
}

fn states<F: PrimeField, const T: usize>(job: &Value) -> Vec<[F; T]> {
    job["states"].as_array().unwrap().iter().map(|s| ints(s).into_iter().map(F::from).collect::<Vec<_>>().try_into().unwrap()).collect()
}
fn out<F: PrimeField>(v: &[F]) -> Vec<u64> {
    v.iter().map(small).collect()
}
/// what the shared runs leave at one party
#[derive(Default)]
struct Res {
    states: Vec<Vec<Vec<u64>>>,
    traces: Vec<Vec<Vec<u64>>>,
    consumed: bool,
    unread: usize,
}

fn base(job: &Value, mode: &Value) -> Value {
    json!({"p": job["p"], "t": job["t"], "d": job["d"], "rf1": job["rf1"], "rf2": job["rf2"], "diag": job["diag"],
           "ext": job["ext"], "int": job["int"], "mode": mode["m"], "form": mode["f"], "n": mode["n"].as_u64().unwrap_or(1),
           "deg": mode["deg"].as_u64().unwrap_or(0)})
}
fn with(mut a: Value, b: Value) -> Value {
    for (k, v) in b.as_object().unwrap() {
        a[k] = v.clone();
    }
    a
}

fn plain_modes<F: PrimeField, const T: usize, const D: u64>(job: &Value, mode: &Value, emit: Emit) {
    let h = Poseidon2::<F, T, D>::new(params(job));
    let ins = states::<F, T>(job);
    let r = quiet(|| {
        ins.iter()
            .map(|s| match mode["f"].as_str().unwrap() {
                "copy" => out(&h.permutation(s)),
                "place" => {
                    let mut x = *s;
                    h.permutation_in_place(&mut x);
                    out(&x)
                }
                _ => {
                    let mut x = *s;
                    Poseidon2::<F, T, D>::matmul_external(&mut x);
                    let (b, e) = (h.params.rounds_f_beginning, h.params.rounds_f_end);
                    (0..b).for_each(|r| h.external_round(&mut x, r));
                    (0..h.params.rounds_p).for_each(|r| h.internal_round(&mut x, r));
                    (b..b + e).for_each(|r| h.external_round(&mut x, r));
                    out(&x)
                }
            })
            .collect::<Vec<_>>()
    });
    let b = base(job, mode);
    emit(match r {
        Ok(v) => with(b, json!({"ev": "plain", "ins": job["states"], "ok": h.num_rounds(), "sbox": h.num_sbox(), "outs": v, "fatal": ""})),
        Err(_) => with(b, json!({"ev": "plain", "ins": job["states"], "ok": 0, "sbox": 0, "outs": [], "fatal": "panic"})),
    });
}

trait Sh: Copy + Send + Sync {
    fn raw(&self) -> Vec<u64>;
}
impl<F: PrimeField> Sh for SS<F> {
    fn raw(&self) -> Vec<u64> {
        vec![small(&self.a)]
    }
}
impl<F: PrimeField> Sh for RS<F> {
    fn raw(&self) -> Vec<u64> {
        vec![small(&self.a), small(&self.b)]
    }
}
fn rows<S: Sh>(v: &[S], t: usize) -> Vec<Vec<Vec<u64>>> {
    v.chunks(t).map(|c| c.iter().map(|x| x.raw()).collect()).collect()
}

fn put(job: &Value, mode: &Value, ev: &str, res: Vec<Result<Res, String>>, unread: usize, emit: Emit) {
    let b = base(job, mode);
    let fatal = res.iter().filter_map(|r| r.as_ref().err()).next().cloned();
    if let Some(f) = fatal {
        emit(with(b, json!({"ev": ev, "ins": job["states"], "fatal": f, "sh": [], "traces": [], "consumed": true, "unread": 0})));
        return;
    }
    let r: Vec<Res> = res.into_iter().map(|r| r.unwrap()).collect();
    emit(with(
        b,
        json!({"ev": ev, "ins": job["states"], "fatal": "", "consumed": r.iter().all(|x| x.consumed), "unread": unread,
        "sh": r.iter().map(|x| x.states.clone()).collect::<Vec<_>>(), "traces": r.iter().map(|x| x.traces.clone()).collect::<Vec<_>>()}),
    ));
}

macro_rules! packed_circom {
    ($h:expr, $st:expr, $pre:expr, $net:expr, $state:expr, $T:ident, $f:ident, $sh:ty; $($k:literal),*) => {
        match ($T, $st.len() / $T) {
            $(
                (2, $k) => { let a: [$sh; 2 * $k] = $st.try_into().unwrap(); let (s, t) = $h.$f::<_, {2 * $k}, $k>(a, $pre, $net, $state)?; (s.to_vec(), t.to_vec()) }
                (3, $k) => { let a: [$sh; 3 * $k] = $st.try_into().unwrap(); let (s, t) = $h.$f::<_, {3 * $k}, $k>(a, $pre, $net, $state)?; (s.to_vec(), t.to_vec()) }
                (4, $k) => { let a: [$sh; 4 * $k] = $st.try_into().unwrap(); let (s, t) = $h.$f::<_, {4 * $k}, $k>(a, $pre, $net, $state)?; (s.to_vec(), t.to_vec()) }
                (16, $k) => { let a: [$sh; 16 * $k] = $st.try_into().unwrap(); let (s, t) = $h.$f::<_, {16 * $k}, $k>(a, $pre, $net, $state)?; (s.to_vec(), t.to_vec()) }
            )*
            _ => panic!("batch size"),
        }
    };
}

macro_rules! packed_circom2 {
    ($h:expr, $st:expr, $pre:expr, $net:expr, $T:ident, $F:ident) => {
        packed_rep3!($h, $st, $pre, $net, $T, $F; 1, 2, 3)
    };
}
macro_rules! packed_rep3 {
    ($h:expr, $st:expr, $pre:expr, $net:expr, $T:ident, $F:ident; $($k:literal),*) => {
        match ($T, $st.len() / $T) {
            $(
                (2, $k) => { let a: [RS<$F>; 2 * $k] = $st.try_into().unwrap(); let (s, t) = $h.rep3_permutation_in_place_with_precomputation_intermediate_packed::<_, {2 * $k}, $k>(a, $pre, $net)?; (s.to_vec(), t.to_vec()) }
                (3, $k) => { let a: [RS<$F>; 3 * $k] = $st.try_into().unwrap(); let (s, t) = $h.rep3_permutation_in_place_with_precomputation_intermediate_packed::<_, {3 * $k}, $k>(a, $pre, $net)?; (s.to_vec(), t.to_vec()) }
                (4, $k) => { let a: [RS<$F>; 4 * $k] = $st.try_into().unwrap(); let (s, t) = $h.rep3_permutation_in_place_with_precomputation_intermediate_packed::<_, {4 * $k}, $k>(a, $pre, $net)?; (s.to_vec(), t.to_vec()) }
                (16, $k) => { let a: [RS<$F>; 16 * $k] = $st.try_into().unwrap(); let (s, t) = $h.rep3_permutation_in_place_with_precomputation_intermediate_packed::<_, {16 * $k}, $k>(a, $pre, $net)?; (s.to_vec(), t.to_vec()) }
            )*
            _ => panic!("batch size"),
        }
    };
}

fn shamir_mode<F: PrimeField, const T: usize>(job: &Value, mode: &Value, emit: Emit) {
    let h = Poseidon2::<F, T, 5>::new(params(job));
    let ins: Vec<F> = states::<F, T>(job).concat();
    let (n, deg) = (mode["n"].as_u64().unwrap() as usize, mode["deg"].as_u64().unwrap() as usize);
    let k = ins.len() / T;
    let mut rng = ChaCha12Rng::seed_from_u64(job["seed"].as_u64().unwrap_or(1));
    let shares = shamir::share_field_elements(&ins, deg, n, &mut rng);
    let nets = RecNet::mesh(n, false);
    let f = mode["f"].as_str().unwrap();
    let res = parties(nets.iter().zip(shares).collect(), |_, (net, mut sh): (&RecNet, Vec<SS<F>>)| -> eyre::Result<Res> {
        let pre = f.starts_with("pre") || f.starts_with("packed") || f.starts_with("circom") || f == "rounds";
        let mut st: ShamirState<F> = ShamirPreprocessing::new(n, deg, mode["amount"].as_u64().unwrap_or(1) as usize, net)?.into();
        if mode["buf"] == true {
            st.buffer_triples(net, h.rand_required(k, pre))?;
        }
        let mut r = Res { consumed: true, ..Default::default() };
        let mut pc = if pre { Some(h.precompute_shamir(k, net, &mut st)?) } else { None };
        match f {
            "packed" => h.shamir_permutation_in_place_with_precomputation_packed(&mut sh, pc.as_mut().unwrap(), net, &mut st)?,
            "packedcopy" => sh = h.shamir_permutation_with_precomputation_packed(&sh, pc.as_mut().unwrap(), net, &mut st)?,
            "circompacked" => {
                let p = pc.as_mut().unwrap();
                let (s, t) = packed_circom!(h, sh, p, net, &mut st, T, shamir_permutation_in_place_with_precomputation_intermediate_packed, SS<F>; 1, 2, 3);
                sh = s;
                r.traces = t.iter().map(|x| x.iter().map(|y| y.raw()).collect()).collect();
            }
            "circomvec" => {
                let (s, t) = h.shamir_permutation_in_place_with_precomputation_intermediate_vec(sh, pc.as_mut().unwrap(), net, &mut st)?;
                sh = s;
                r.traces = t.iter().map(|x| x.iter().map(|y| y.raw()).collect()).collect();
            }
            _ => {
                for c in sh.chunks_exact_mut(T) {
                    let c: &mut [SS<F>; T] = c.try_into().unwrap();
                    match f {
                        "direct" => h.shamir_permutation_in_place(c, net, &mut st)?,
                        "directcopy" => *c = h.shamir_permutation(c, net, &mut st)?,
                        "pre" => h.shamir_permutation_in_place_with_precomputation(c, pc.as_mut().unwrap(), net, &mut st)?,
                        "precopy" => *c = h.shamir_permutation_with_precomputation(c, pc.as_mut().unwrap(), net, &mut st)?,
                        "rounds" => {
                            let p = pc.as_mut().unwrap();
                            Poseidon2::<F, T, 5>::matmul_external_shamir(c);
                            let (b, e) = (h.params.rounds_f_beginning, h.params.rounds_f_end);
                            for r in 0..b {
                                h.shamir_external_round_precomp(c, r, p, net, &mut st)?;
                            }
                            for r in 0..h.params.rounds_p {
                                h.shamir_internal_round_precomp(c, r, p, net, &mut st)?;
                            }
                            for r in b..b + e {
                                h.shamir_external_round_precomp(c, r, p, net, &mut st)?;
                            }
                        }
                        "circom" => {
                            let t = h.shamir_permutation_in_place_with_precomputation_intermediate(c, pc.as_mut().unwrap(), net, &mut st)?;
                            r.traces.push(t.iter().map(|y| y.raw()).collect());
                        }
                        _ => panic!("form {f}"),
                    }
                }
            }
        }
        r.states = rows(&sh, T);
        r.consumed = pc.is_none_or(|p| p.consumed());
        Ok(r)
    });
    let unread = nets.iter().map(|n| n.unread()).sum();
    put(job, mode, "shared", res, unread, emit);
}

fn rep3_mode<F: PrimeField, const T: usize>(job: &Value, mode: &Value, emit: Emit) {
    let h = Poseidon2::<F, T, 5>::new(params(job));
    let ins: Vec<F> = states::<F, T>(job).concat();
    let k = ins.len() / T;
    let mut rng = ChaCha12Rng::seed_from_u64(job["seed"].as_u64().unwrap_or(1));
    let shares = rep3::share_field_elements(&ins, &mut rng);
    let nets = RecNet::mesh(3, false);
    let f = mode["f"].as_str().unwrap();
    let res = parties(nets.iter().zip(shares).collect(), |_, (net, mut sh): (&RecNet, Vec<RS<F>>)| -> eyre::Result<Res> {
        let pre = f.starts_with("pre") || f.starts_with("packed") || f.starts_with("circom") || f == "rounds";
        let mut st = Rep3State::new(net, A2BType::default())?;
        let mut r = Res { consumed: true, ..Default::default() };
        let mut pc = if pre { Some(h.precompute_rep3(k, net, &mut st)?) } else { None };
        let mut pa = if f.starts_with("additive") { Some(h.precompute_rep3_additive(k, net, &mut st)?) } else { None };
        match f {
            "packed" => h.rep3_permutation_in_place_with_precomputation_packed(&mut sh, pc.as_mut().unwrap(), net)?,
            "packedcopy" => sh = h.rep3_permutation_with_precomputation_packed(&sh, pc.as_mut().unwrap(), net)?,
            "circompacked" => {
                let p = pc.as_mut().unwrap();
                let (s, t) = packed_circom2!(h, sh, p, net, T, F);
                sh = s;
                r.traces = t.iter().map(|x| x.iter().map(|y| y.raw()).collect()).collect();
            }
            "circomvec" => {
                let (s, t) = h.rep3_permutation_in_place_with_precomputation_intermediate_vec(sh, pc.as_mut().unwrap(), net)?;
                sh = s;
                r.traces = t.iter().map(|x| x.iter().map(|y| y.raw()).collect()).collect();
            }
            _ => {
                for c in sh.chunks_exact_mut(T) {
                    let c: &mut [RS<F>; T] = c.try_into().unwrap();
                    match f {
                        "direct" => h.rep3_permutation_in_place(c, net, &mut st)?,
                        "directcopy" => *c = h.rep3_permutation(c, net, &mut st)?,
                        "pre" => h.rep3_permutation_in_place_with_precomputation(c, pc.as_mut().unwrap(), net)?,
                        "precopy" => *c = h.rep3_permutation_with_precomputation(c, pc.as_mut().unwrap(), net)?,
                        "additive" => h.rep3_permutation_additive_in_place_with_precomputation(c, pa.as_mut().unwrap(), net, &mut st)?,
                        "additivecopy" => *c = h.rep3_permutation_additive_with_precomputation(c, pa.as_mut().unwrap(), net, &mut st)?,
                        "rounds" => {
                            let p = pc.as_mut().unwrap();
                            Poseidon2::<F, T, 5>::matmul_external_rep3(c);
                            let (b, e) = (h.params.rounds_f_beginning, h.params.rounds_f_end);
                            for r in 0..b {
                                h.rep3_external_round_precomp(c, r, p, net)?;
                            }
                            for r in 0..h.params.rounds_p {
                                h.rep3_internal_round_precomp(c, r, p, net)?;
                            }
                            for r in b..b + e {
                                h.rep3_external_round_precomp(c, r, p, net)?;
                            }
                        }
                        "circom" => {
                            let t = h.rep3_permutation_in_place_with_precomputation_intermediate(c, pc.as_mut().unwrap(), net)?;
                            r.traces.push(t.iter().map(|y| y.raw()).collect());
                        }
                        _ => panic!("form {f}"),
                    }
                }
            }
        }
        r.states = rows(&sh, T);
        r.consumed = pc.is_none_or(|p| p.consumed()) && pa.is_none_or(|p| p.consumed());
        Ok(r)
    });
    let unread = nets.iter().map(|n| n.unread()).sum();
    put(job, mode, "shared", res, unread, emit);
}

fn plain_circom<F: PrimeField, const T: usize>(job: &Value, mode: &Value, emit: Emit) {
    let h = Poseidon2::<F, T, 5>::new(params(job));
    let r = parties(vec![()], |_, _| {
        let mut r = Res { consumed: true, ..Default::default() };
        for s in states::<F, T>(job) {
            let (s, t) = h.plain_permutation_intermediate(s)?;
            r.states.push(s.iter().map(|x| vec![small(x)]).collect());
            r.traces.push(t.iter().map(|x| vec![small(x)]).collect());
        }
        Ok(r)
    });
    put(job, mode, "shared", r, 0, emit);
}

// ------------------------------------------------------------------------------------------------ Merkle trees
fn merkle<F: PrimeField, const T: usize, const A: usize>(job: &Value, emit: Emit) {
    let h = Poseidon2::<F, T, 5>::new(params(job));
    let leaves: Vec<F> = ints(&job["leaves"]).into_iter().map(F::from).collect();
    let sponge = job["tree"] == "sponge";
    let b = with(base(job, &json!({"m": "merkle", "f": "", "n": 1})), json!({"tree": job["tree"], "arity": A, "leaves": job["leaves"]}));
    macro_rules! wit {
        ($i:expr) => {
            if sponge {
                h.merkle_tree_sponge_with_witness::<A>(leaves.clone(), $i)
            } else {
                h.merkle_tree_compression_with_witness::<A>(leaves.clone(), $i)
            }
        };
    }
    let root = quiet(|| if sponge { h.merkle_tree_sponge::<A>(leaves.clone()) } else { h.merkle_tree_compression::<A>(leaves.clone()) });
    let Ok(root) = root else {
        emit(with(b, json!({"ev": "merkle", "fatal": "panic", "root": 0, "wits": [], "tests": []})));
        return;
    };
    let mut wits = vec![];
    for i in ints(&job["idx"]) {
        match quiet(|| {
            let (r, w) = wit!(i as usize);
            json!({"i": i, "root": small(&r), "wit": w.iter().map(|e| json!({"pos": e.position, "other": out(&e.other)})).collect::<Vec<_>>()})
        }) {
            Ok(v) => wits.push(v),
            Err(_) => wits.push(json!({"i": i, "root": -1, "wit": []})),
        }
    }
    // verification of (altered) paths: what is verified is recorded literally
    let mut tests = vec![];
    for t in job["tests"].as_array().unwrap() {
        let i = t["i"].as_u64().unwrap() as usize;
        let built = quiet(|| {
            let (r, mut w) = wit!(i);
            let mut leaf = leaves[i];
            let mut root = r;
            for e in t["edits"].as_array().unwrap() {
                let a = e["a"].as_u64().unwrap_or(0) as usize;
                let c = e["c"].as_u64().unwrap_or(0) as usize;
                let v = F::from(e["v"].as_u64().unwrap_or(0));
                let lv = a % w.len().max(1);
                match e["op"].as_str().unwrap() {
                    "leaf" => leaf = v,
                    "leafof" => leaf = leaves[a % leaves.len()],
                    "root" => root = v,
                    "other" => {
                        let m = w[lv].other.len();
                        w[lv].other[c % m] = v;
                    }
                    "pos" => w[lv].position = c,
                    "swap" => {
                        let m = w.len();
                        w.swap(lv, c % m);
                    }
                    "pop" => {
                        if w.len() > 1 {
                            w.pop();
                        }
                    }
                    "dup" => {
                        let (_, mut x) = wit!(i);
                        w.push(x.remove(lv));
                    }
                    "short" => {
                        w[lv].other.pop();
                    }
                    "long" => w[lv].other.push(v),
                    _ => panic!("edit"),
                }
            }
            let rec = json!({"root": small(&root), "leaf": small(&leaf),
                "wit": w.iter().map(|e| json!({"pos": e.position, "other": out(&e.other)})).collect::<Vec<_>>()});
            (root, leaf, w, rec)
        });
        let Ok((root, leaf, w, mut rec)) = built else {
            tests.push(json!({"root": 0, "leaf": 0, "wit": [], "res": "panic"}));
            continue;
        };
        let r = quiet(|| if sponge { h.verify_merkle_path_sponge(root, leaf, w) } else { h.verify_merkle_path_compression(root, leaf, w) });
        rec["res"] = match r {
            Ok(true) => "yes",
            Ok(false) => "no",
            Err(_) => "panic",
        }
        .into();
        tests.push(rec);
    }
    emit(with(b.clone(), json!({"ev": "merkle", "fatal": "", "root": small(&root), "wits": wits, "tests": tests})));
    // shared trees
    for m in job["shared"].as_array().unwrap() {
        let mut rng = ChaCha12Rng::seed_from_u64(job["seed"].as_u64().unwrap_or(1));
        let (n, deg) = (m["n"].as_u64().unwrap_or(3) as usize, m["deg"].as_u64().unwrap_or(1) as usize);
        let nets = RecNet::mesh(n, false);
        let sh: Vec<Result<Vec<u64>, String>> = if m["m"] == "shamir" {
            let shares = shamir::share_field_elements(&leaves, deg, n, &mut rng);
            parties(nets.iter().zip(shares).collect(), |_, (net, s): (&RecNet, Vec<SS<F>>)| {
                let mut st: ShamirState<F> = ShamirPreprocessing::new(n, deg, 1, net)?.into();
                let r = if sponge {
                    h.merkle_tree_sponge_shamir::<A, _>(s, net, &mut st)?
                } else {
                    h.merkle_tree_compression_shamir::<A, _>(s, net, &mut st)?
                };
                Ok(r.raw())
            })
        } else {
            let shares = rep3::share_field_elements(&leaves, &mut rng);
            parties(nets.iter().zip(shares).collect(), |_, (net, s): (&RecNet, Vec<RS<F>>)| {
                let mut st = Rep3State::new(net, A2BType::default())?;
                let r = if sponge {
                    h.merkle_tree_sponge_rep3::<A, _>(s, net, &mut st)?
                } else {
                    h.merkle_tree_compression_rep3::<A, _>(s, net, &mut st)?
                };
                Ok(r.raw())
            })
        };
        let fatal = sh.iter().filter_map(|r| r.as_ref().err()).next().cloned().unwrap_or_default();
        let sh: Vec<Vec<u64>> = sh.into_iter().filter_map(|r| r.ok()).collect();
        emit(with(b.clone(), json!({"ev": "mshared", "mode": m["m"], "n": n, "deg": deg, "fatal": fatal, "sh": sh})));
    }
}

// ------------------------------------------------------------------------------------------------ published parameters
fn bits<F: PrimeField>(x: &F) -> Vec<u64> {
    let mut b: Vec<u64> = x.into_bigint().to_bits_le().into_iter().take(F::MODULUS_BIT_SIZE as usize).map(|b| b as u64).collect();
    b.reverse();
    b
}
fn modulus_bits<F: PrimeField>() -> Vec<u64> {
    let mut b: Vec<u64> = F::MODULUS.to_bits_le().into_iter().take(F::MODULUS_BIT_SIZE as usize).map(|b| b as u64).collect();
    b.reverse();
    b
}
fn published<F: PrimeField, const T: usize>(emit: Emit) {
    let h = Poseidon2::<F, T, 5>::default();
    let p = h.params;
    emit(json!({"ev": "params", "t": T, "rf1": p.rounds_f_beginning, "rf2": p.rounds_f_end, "rp": p.rounds_p,
        "ext": p.round_constants_external.iter().map(|r| r.iter().map(bits).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "int": p.round_constants_internal.iter().map(bits).collect::<Vec<_>>(),
        "diag": p.mat_internal_diag_m_1.iter().map(bits).collect::<Vec<_>>(),
        "modulus": modulus_bits::<F>()}));
}

fn perm<F: PrimeField, const T: usize>(job: &Value, emit: Emit) {
    for m in job["modes"].as_array().unwrap() {
        match m["m"].as_str().unwrap() {
            "plain" => match job["d"].as_u64().unwrap() {
                3 => plain_modes::<F, T, 3>(job, m, emit),
                5 => plain_modes::<F, T, 5>(job, m, emit),
                7 => plain_modes::<F, T, 7>(job, m, emit),
                9 => plain_modes::<F, T, 9>(job, m, emit),
                11 => plain_modes::<F, T, 11>(job, m, emit),
                d => panic!("exponent {d}"),
            },
            "shamir" => shamir_mode::<F, T>(job, m, emit),
            "rep3" => rep3_mode::<F, T>(job, m, emit),
            "plaincircom" => plain_circom::<F, T>(job, m, emit),
            x => panic!("mode {x}"),
        }
    }
}

fn tree<F: PrimeField, const T: usize>(job: &Value, emit: Emit) {
    match job["arity"].as_u64().unwrap() {
        2 => merkle::<F, T, 2>(job, emit),
        3 => merkle::<F, T, 3>(job, emit),
        4 => merkle::<F, T, 4>(job, emit),
        8 => merkle::<F, T, 8>(job, emit),
        a => panic!("arity {a}"),
    }
}

fn main() {
    main_loop(|job, emit| {
        let kind = job["kind"].as_str().unwrap();
        if kind == "published" {
            match job["t"].as_u64().unwrap() {
                2 => published::<ark_bn254::Fr, 2>(emit),
                3 => published::<ark_bn254::Fr, 3>(emit),
                4 => published::<ark_bn254::Fr, 4>(emit),
                _ => published::<ark_bn254::Fr, 16>(emit),
            }
            return;
        }
        macro_rules! go {
            ($f:ty) => {
                match (kind, job["t"].as_u64().unwrap()) {
                    ("perm", 2) => perm::<$f, 2>(job, emit),
                    ("perm", 3) => perm::<$f, 3>(job, emit),
                    ("perm", 4) => perm::<$f, 4>(job, emit),
                    ("perm", 8) => perm::<$f, 8>(job, emit),
                    ("perm", 12) => perm::<$f, 12>(job, emit),
                    ("perm", 16) => perm::<$f, 16>(job, emit),
                    ("perm", 20) => perm::<$f, 20>(job, emit),
                    ("perm", 24) => perm::<$f, 24>(job, emit),
                    ("merkle", 2) => tree::<$f, 2>(job, emit),
                    ("merkle", 3) => tree::<$f, 3>(job, emit),
                    ("merkle", 4) => tree::<$f, 4>(job, emit),
                    ("merkle", 8) => tree::<$f, 8>(job, emit),
                    ("merkle", 12) => tree::<$f, 12>(job, emit),
                    ("merkle", 16) => tree::<$f, 16>(job, emit),
                    (k, t) => panic!("{k} {t}"),
                }
            };
        }
        match job["p"].as_u64().unwrap() {
            257 => go!(F257),
            40961 => go!(F40961),
            p => panic!("no field {p}"),
        }
    });
}
