//! V01: witness extension. Runs bytecode programs on every backend of the circom VM.
use ark_ff::PrimeField;
use circom_mpc_vm::mpc_vm::{BatchedRep3WitnessExtension, Rep3WitnessExtension, ShamirWitnessExtension, VMConfig};
use circom_mpc_vm::op_codes::MpcOpCode as Op;
use circom_mpc_vm::types::{CoCircomCompilerParsed, FunDecl, TemplateDecl};
use circom_mpc_vm::{BatchedRep3VmType, Rep3VmType, ShamirVmType};
use mpc_core::protocols::rep3::{self, conversion::A2BType};
use mpc_core::protocols::shamir;
use mpc_core::uint::FieldUint;
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};
use vmpc::*;

fn us(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn st(v: &Value) -> String {
    v.as_str().unwrap().to_string()
}
fn code(v: &Value) -> Vec<Op> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|i| {
            let (a, b, c) = (&i[1], &i[2], &i[3]);
            match i[0].as_str().unwrap() {
                "PushConstant" => Op::PushConstant(us(a)),
                "PushIndex" => Op::PushIndex(us(a)),
                "LoadSignals" => Op::LoadSignals(us(a)),
                "StoreSignals" => Op::StoreSignals(us(a)),
                "LoadVars" => Op::LoadVars(us(a)),
                "StoreVars" => Op::StoreVars(us(a)),
                "OutputSubComp" => Op::OutputSubComp(us(a) == 1, us(b), us(c)),
                "InputSubComp" => Op::InputSubComp(us(a) == 1, us(b), us(c)),
                "CreateCmp" => Op::CreateCmp(st(a), us(b)),
                "Call" => Op::Call(st(a), us(b)),
                "Return" => Op::Return,
                "ReturnFun" => Op::ReturnFun,
                "ReturnSharedIfFun" => Op::ReturnSharedIfFun,
                "Assert" => Op::Assert(us(a)),
                "If" => Op::If(us(a)),
                "EndTruthyBranch" => Op::EndTruthyBranch(us(a)),
                "EndFalsyBranch" => Op::EndFalsyBranch,
                "Add" => Op::Add,
                "Sub" => Op::Sub,
                "Mul" => Op::Mul,
                "Div" => Op::Div,
                "IntDiv" => Op::IntDiv,
                "Pow" => Op::Pow,
                "Mod" => Op::Mod,
                "Neg" => Op::Neg,
                "Lt" => Op::Lt,
                "Le" => Op::Le,
                "Gt" => Op::Gt,
                "Ge" => Op::Ge,
                "Eq" => Op::Eq(us(a)),
                "Neq" => Op::Neq,
                "BoolOr" => Op::BoolOr,
                "BoolAnd" => Op::BoolAnd,
                "BitOr" => Op::BitOr,
                "BitAnd" => Op::BitAnd,
                "BitXor" => Op::BitXOr,
                "ShiftR" => Op::ShiftR,
                "ShiftL" => Op::ShiftL,
                "MulIndex" => Op::MulIndex,
                "AddIndex" => Op::AddIndex,
                "ToIndex" => Op::ToIndex,
                "JumpBack" => Op::JumpBack(us(a)),
                "JumpIfFalse" => Op::JumpIfFalse(us(a)),
                "Log" => Op::Log,
                "LogString" => Op::LogString(us(a)),
                "LogFlush" => Op::LogFlush(us(a)),
                x => panic!("opcode {x}"),
            }
        })
        .collect()
}
fn program<F: PrimeField>(v: &Value) -> CoCircomCompilerParsed<F> {
    let mut funs: HashMap<String, FunDecl> = v["funs"]
        .as_object()
        .unwrap()
        .iter()
        .map(|(k, f)| (k.clone(), FunDecl::new(us(&f["params"]), us(&f["vars"]), code(&f["code"]))))
        .collect();
    // replaced by an accelerator, but declared
    funs.insert("sqrt_0".into(), FunDecl::new(1, 1, vec![Op::PushIndex(0), Op::LoadVars(1), Op::ReturnFun]));
    let templs: HashMap<String, TemplateDecl> = v["templs"]
        .as_object()
        .unwrap()
        .iter()
        .map(|(k, t)| {
            let map = ints(&t["map"]).into_iter().map(|x| x as usize).collect();
            (k.clone(), TemplateDecl::new(k.clone(), st(&t["name"]), us(&t["ins"]), us(&t["outs"]), us(&t["subs"]), us(&t["vars"]), map, code(&t["code"])))
        })
        .collect();
    let main = st(&v["main"]);
    let (ins, outs) = (us(&v["templs"][&main]["ins"]), us(&v["templs"][&main]["outs"]));
    let list = v["inlist"].as_array().unwrap().iter().map(|l| (st(&l[0]), us(&l[1]), us(&l[2]))).collect();
    CoCircomCompilerParsed::new(
        main,
        us(&v["nsig"]),
        ints(&v["consts"]).into_iter().map(F::from).collect(),
        vec!["text".into()],
        funs,
        templs,
        ints(&v["w2s"]).into_iter().map(|x| x as usize).collect(),
        ins,
        outs,
        list,
        HashMap::from([("out".to_string(), (1, outs))]),
        vec![],
    )
}
/// Inputs by name, in the order of the input list.
fn named<T: Clone>(v: &Value, xs: &[T], outs: usize) -> BTreeMap<String, T> {
    let mut m = BTreeMap::new();
    for l in v["inlist"].as_array().unwrap() {
        let (n, o, k) = (st(&l[0]), us(&l[1]) - 1 - outs, us(&l[2]));
        if k == 1 {
            m.insert(n, xs[o].clone());
        } else {
            for i in 0..k {
                m.insert(format!("{n}[{i}]"), xs[o + i].clone());
            }
        }
    }
    m
}
fn vals<F: PrimeField>(x: &[F]) -> Vec<u64> {
    x.iter().map(small).collect()
}
/// Per party: what is public, what the named output gives, and the shares of the rest.
type Res = Result<(Vec<Vec<u64>>, Vec<Vec<u64>>, Vec<Vec<Vec<u64>>>), String>;

fn emit(emit: &mut dyn FnMut(Value), backend: &str, elems: usize, rs: Vec<Res>, tries: usize) {
    for e in 0..elems {
        let ok: Vec<bool> = rs.iter().map(|r| r.is_ok()).collect();
        let why: Vec<&str> = rs.iter().filter_map(|r| r.as_ref().err()).map(|s| s.as_str()).take(1).collect();
        let public: Vec<Vec<u64>> = rs.iter().flatten().map(|r| r.0[e].clone()).collect();
        let out: Vec<Vec<u64>> = rs.iter().flatten().map(|r| r.1[e].clone()).collect();
        let wit: Vec<Vec<Vec<u64>>> = rs.iter().flatten().map(|r| r.2[e].clone()).collect();
        emit(json!({"ev": "vm", "backend": backend, "elem": e + 1, "ok": ok, "why": why, "public": public, "out": out, "wit": wit, "tries": tries}));
    }
}
fn run<F: PrimeField + FieldUint>(job: &Value, out: &mut dyn FnMut(Value)) {
    let pv = &job["prog"];
    let prog: CoCircomCompilerParsed<F> = program(pv);
    let outs = us(&pv["templs"][st(&pv["main"])]["outs"]);
    let xs: Vec<Vec<F>> = job["inputs"].as_array().unwrap().iter().map(|r| ints(r).into_iter().map(F::from).collect()).collect();
    let pubs: Vec<bool> = job["pubs"].as_array().unwrap().iter().map(|b| b.as_bool().unwrap()).collect();
    let amount = us(&job["amount"]);
    let flat = job["flat"].as_bool().unwrap();
    let leaky = job["leaky"].as_bool().unwrap();
    let cfg = |y: bool| VMConfig { allow_leaky_logs: leaky, a2b_type: if y { A2BType::Yao } else { A2BType::Direct } };
    let seed = job["seed"].as_u64().unwrap();
    let mut first_ok = true;
    for b in job["backends"].as_array().unwrap() {
        let b = b.as_str().unwrap();
        let mut tries = 0;
        let elems = xs.len();
        loop {
            tries += 1;
            let mut rng = ChaCha12Rng::seed_from_u64(seed * 100 + tries as u64);
            let rs: Vec<Res> = match b {
                "plain" => {
                    let mut all = (vec![], vec![], vec![]);
                    let mut bad = None;
                    for x in &xs {
                        let r = parties(vec![()], |_, _| {
                            let vm = prog.clone().to_plain_vm(cfg(false));
                            let r = if flat { vm.run_with_flat(x.clone(), amount)? } else { vm.run(named(pv, x, outs), amount)? };
                            let o = r.get_output("out").unwrap();
                            let w = r.into_shared_witness();
                            Ok((vals(&w.public_inputs), vals(&o), w.witness.iter().map(|s| vec![small(s)]).collect::<Vec<_>>()))
                        });
                        match r.into_iter().next().unwrap() {
                            Ok(r) => {
                                all.0.push(r.0);
                                all.1.push(r.1);
                                all.2.push(r.2);
                            }
                            Err(e) => bad = Some(e),
                        }
                    }
                    vec![match bad {
                        Some(e) => Err(e),
                        None => Ok(all),
                    }]
                }
                "bplain" => parties(vec![()], |_, _| {
                    let vm = prog.clone().to_batched_plain_vm(cfg(false), xs.len());
                    let x: Vec<Vec<F>> = (0..xs[0].len()).map(|i| xs.iter().map(|r| r[i]).collect()).collect();
                    let r = if flat { vm.run_with_flat(x, amount)? } else { vm.run(named(pv, &x, outs), amount)? };
                    let o = r.get_output("out").unwrap();
                    let w = r.into_shared_witness();
                    let col = |m: &Vec<Vec<F>>, e: usize| m.iter().map(|c| small(&c[e])).collect::<Vec<_>>();
                    Ok((
                        (0..xs.len()).map(|e| col(&w.public_inputs, e)).collect(),
                        (0..xs.len()).map(|e| col(&o, e)).collect(),
                        (0..xs.len()).map(|e| w.witness.iter().map(|c| vec![small(&c[e])]).collect()).collect(),
                    ))
                }),
                "rep3" | "rep3y" => {
                    let x = &xs[0];
                    let sh: Vec<Vec<Rep3VmType<F>>> = {
                        let mut p: Vec<Vec<Rep3VmType<F>>> = vec![vec![]; 3];
                        for (i, v) in x.iter().enumerate() {
                            let s = rep3::share_field_element(*v, &mut rng);
                            for k in 0..3 {
                                p[k].push(if pubs[i] { (*v).into() } else { s[k].into() });
                            }
                        }
                        p
                    };
                    let (n0, n1) = (RecNet::mesh(3, false), RecNet::mesh(3, false));
                    let a: Vec<_> = sh.into_iter().zip(n0).zip(n1).collect();
                    let r = parties(a, |_, ((sh, n0), n1)| {
                        let vm = Rep3WitnessExtension::new(&n0, &n1, &prog, cfg(b == "rep3y"))?;
                        let r = if flat { vm.run_with_flat(sh, amount)? } else { vm.run(named(pv, &sh, outs), amount)? };
                        let o = r.get_output("out").unwrap();
                        let w = r.into_shared_witness();
                        Ok((vec![vals(&w.public_inputs)], vec![vals(&o)], vec![w.witness.iter().map(|s| vec![small(&s.a), small(&s.b)]).collect()]))
                    });
                    r
                }
                "brep3" => {
                    let n = xs.len();
                    let mut p: Vec<Vec<BatchedRep3VmType<F>>> = vec![vec![]; 3];
                    for i in 0..xs[0].len() {
                        let v: Vec<F> = xs.iter().map(|r| r[i]).collect();
                        let s = rep3::share_field_elements(&v, &mut rng);
                        for (k, s) in s.into_iter().enumerate() {
                            p[k].push(if pubs[i] { v.clone().into() } else { s.into() });
                        }
                    }
                    let (n0, n1) = (RecNet::mesh(3, false), RecNet::mesh(3, false));
                    let a: Vec<_> = p.into_iter().zip(n0).zip(n1).collect();
                    parties(a, |_, ((sh, n0), n1)| {
                        let vm = BatchedRep3WitnessExtension::new(&n0, &n1, &prog, cfg(seed % 2 == 1), n)?;
                        let r = if flat { vm.run_with_flat(sh, amount)? } else { vm.run(named(pv, &sh, outs), amount)? };
                        let o = r.get_output("out").unwrap();
                        let w = r.into_shared_witness();
                        let col = |m: &Vec<Vec<F>>, e: usize| m.iter().map(|c| small(&c[e])).collect::<Vec<_>>();
                        Ok((
                            (0..n).map(|e| col(&w.public_inputs, e)).collect(),
                            (0..n).map(|e| col(&o, e)).collect(),
                            (0..n).map(|e| w.witness.iter().map(|c| vec![small(&c[e].a), small(&c[e].b)]).collect()).collect(),
                        ))
                    })
                }
                _ => {
                    let (n, t) = (us(&job["sh"][0]), us(&job["sh"][1]));
                    let x = &xs[0];
                    let mut p: Vec<Vec<ShamirVmType<F>>> = vec![vec![]; n];
                    for (i, v) in x.iter().enumerate() {
                        let s = shamir::share_field_element(*v, t, n, &mut rng);
                        for k in 0..n {
                            p[k].push(if pubs[i] { (*v).into() } else { s[k].into() });
                        }
                    }
                    let a: Vec<_> = p.into_iter().zip(RecNet::mesh(n, false)).collect();
                    let pairs = us(&job["sh"][2]);
                    parties(a, |_, (sh, net)| {
                        let vm = ShamirWitnessExtension::new(&net, n, t, pairs, &prog, cfg(false))?;
                        let r = if flat { vm.run_with_flat(sh, amount)? } else { vm.run(named(pv, &sh, outs), amount)? };
                        let o = r.get_output("out").unwrap();
                        let w = r.into_shared_witness();
                        Ok((vec![vals(&w.public_inputs)], vec![vals(&o)], vec![w.witness.iter().map(|s| vec![small(&s.inner())]).collect()]))
                    })
                }
            };
            let ok = rs.iter().all(|r| r.is_ok());
            if b == "plain" {
                first_ok = ok;
            }
            // inversions fail by chance when their mask is zero: such a run is repeated
            if ok || !first_ok || tries == 12 || b == "plain" || b == "bplain" {
                let e = if ok && matches!(b, "plain" | "bplain" | "brep3") { elems } else { 1 };
                emit(out, b, e, rs, tries);
                break;
            }
        }
    }
}
fn main() {
    main_loop(|job, out| match job["p"].as_u64().unwrap() {
        257 => run::<F257>(job, out),
        12289 => run::<F12289>(job, out),
        40961 => run::<F40961>(job, out),
        x => panic!("field {x}"),
    });
}
