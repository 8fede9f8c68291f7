//! G03: circuit descriptions are parsed, verified, levelled and evaluated by the real code, with wire values that
//! know whether they were written.
#![allow(unfulfilled_lint_expectations, dead_code)]
mod protocols {
    pub mod rep3 {
        pub mod yao {
            #[path = "/repo/mpc-core/src/protocols/rep3/yao/bristol_fashion/mod.rs"]
            pub mod bristol_fashion;
        }
    }
}
use protocols::rep3::yao::bristol_fashion::{BristolFashionCircuit, BristolFashionEvaluator, CircuitExecutionError};
use serde_json::{Value, json};
use vmpc::{main_loop, quiet};

fn text(lines: &Value) -> String {
    let mut s = String::new();
    for l in lines.as_array().unwrap() {
        let t: Vec<String> = l.as_array().unwrap().iter().map(|t| if t["w"] == "" { t["v"].to_string() } else { t["w"].as_str().unwrap().to_string() }).collect();
        s += &t.join(" ");
        s += "\n";
    }
    s
}

/// `None`: never written.
#[derive(Default)]
struct Eval {
    unset: usize,
    ands: usize,
    calls: usize,
}
impl Eval {
    fn get(&mut self, x: &Option<bool>) -> bool {
        if x.is_none() {
            self.unset += 1;
        }
        x.unwrap_or(false)
    }
}
impl BristolFashionEvaluator for Eval {
    type WireValue = Option<bool>;
    fn constant(&mut self, input: bool) -> Result<Option<bool>, CircuitExecutionError> {
        self.calls += 1;
        Ok(Some(input))
    }
    fn inv(&mut self, a: &Option<bool>) -> Result<Option<bool>, CircuitExecutionError> {
        self.calls += 1;
        let a = self.get(a);
        Ok(Some(!a))
    }
    fn xor(&mut self, a: &Option<bool>, b: &Option<bool>) -> Result<Option<bool>, CircuitExecutionError> {
        self.calls += 1;
        let (a, b) = (self.get(a), self.get(b));
        Ok(Some(a ^ b))
    }
    fn and(&mut self, a: &Option<bool>, b: &Option<bool>) -> Result<Option<bool>, CircuitExecutionError> {
        self.calls += 1;
        self.ands += 1;
        let (a, b) = (self.get(a), self.get(b));
        Ok(Some(a & b))
    }
}

fn bundles(sizes: &[usize], x: &[bool]) -> Vec<Vec<Option<bool>>> {
    let mut k = 0;
    sizes
        .iter()
        .map(|n| {
            let v = x[k..k + n].iter().map(|b| Some(*b)).collect();
            k += n;
            v
        })
        .collect()
}
fn bit(o: &Option<bool>) -> u64 {
    o.map(|b| b as u64).unwrap_or(2)
}
fn record(ok: Result<Result<Vec<Vec<Option<bool>>>, CircuitExecutionError>, ()>, e: &Eval) -> Value {
    match ok {
        Ok(Ok(v)) => json!({"st": "ok", "out": v.iter().map(|b| b.iter().map(bit).collect::<Vec<_>>()).collect::<Vec<_>>(), "unset": e.unset, "ands": e.ands, "calls": e.calls}),
        Ok(Err(_)) => json!({"st": "error", "out": [], "unset": 0, "ands": 0, "calls": 0}),
        Err(()) => json!({"st": "panic", "out": [], "unset": 0, "ands": 0, "calls": 0}),
    }
}
/// words of a written description, in the form of the job
fn words(s: &str) -> Value {
    s.lines()
        .map(|l| {
            l.split_whitespace()
                .map(|w| match w.parse::<u32>() {
                    Ok(v) => json!({"w": "", "v": v}),
                    Err(_) => json!({"w": w, "v": 0}),
                })
                .collect::<Vec<_>>()
        })
        .collect()
}

fn circuit(j: &Value, emit: &mut dyn FnMut(Value)) {
    let t = text(&j["lines"]);
    let c = match quiet(|| BristolFashionCircuit::from_reader(t.as_bytes())) {
        Ok(Ok(c)) => c,
        r => {
            emit(json!({"ev": "parse", "lines": j["lines"], "st": if r.is_ok() { "error" } else { "panic" }}));
            return;
        }
    };
    let sizes: Vec<usize> = c.get_input_wires().iter().map(|w| w.len()).collect();
    let mut buf = vec![];
    c.write_circuit_file(&mut buf).unwrap();
    emit(json!({"ev": "parse", "lines": j["lines"], "st": "ok", "ands": c.num_and_gates(), "inputs": c.get_input_wires(), "outputs": c.get_output_wires(),
        "nin": c.num_input_wires(), "wires": c.num_wires(), "written": words(std::str::from_utf8(&buf).unwrap())}));
    let lev = quiet(|| c.clone().level());
    let (Ok(lev), true) = (&lev, lev.is_ok()) else {
        emit(json!({"ev": "level", "lines": j["lines"], "st": "panic"}));
        return;
    };
    emit(json!({"ev": "level", "lines": j["lines"], "st": "ok", "ands": lev.num_and_gates(), "inputs": lev.get_input_wires(), "outputs": lev.get_output_wires(), "nin": lev.num_input_wires(), "wires": lev.num_wires()}));
    let n: usize = sizes.iter().sum();
    let pats: Vec<u64> = if n <= 5 { (0..1u64 << n).collect() } else { (0..24u64).map(|i| (i + 1).wrapping_mul(0x9e3779b97f4a7c15) >> 7).collect() };
    for p in pats {
        let x: Vec<bool> = (0..n).map(|k| p >> (k % 57) & 1 == 1).collect();
        let inp = bundles(&sizes, &x);
        let mut e = Eval::default();
        let a = quiet(|| c.evaluate(&inp, &mut e));
        let a = record(a, &e);
        let mut e = Eval::default();
        let b = quiet(|| lev.evaluate(&inp, &mut e));
        let b = record(b, &e);
        emit(json!({"ev": "eval", "lines": j["lines"], "x": x.iter().map(|b| *b as u64).collect::<Vec<_>>(), "gates": a, "levels": b}));
    }
    // inputs of a wrong shape
    let x = vec![true; n + 2];
    let mut wrong: Vec<Vec<usize>> = vec![[sizes.clone(), vec![0]].concat()];
    if !sizes.is_empty() {
        wrong.push(sizes[1..].to_vec());
        let mut s = sizes.clone();
        s[0] += 1;
        wrong.push(s);
        if let Some(k) = sizes.iter().rposition(|s| *s > 0) {
            let mut s = sizes.clone();
            s[k] -= 1;
            wrong.push(s);
        }
    }
    for s in wrong {
        let inp = bundles(&s, &x);
        let mut e = Eval::default();
        let a = record(quiet(|| c.evaluate(&inp, &mut e)), &e);
        let b = record(quiet(|| lev.evaluate(&inp, &mut e)), &e);
        emit(json!({"ev": "shape", "sizes": s, "gates": a["st"], "levels": b["st"]}));
    }
}

/// A shipped circuit: the outputs of both evaluations on one input.
fn file(j: &Value, emit: &mut dyn FnMut(Value)) {
    let c = match quiet(|| BristolFashionCircuit::from_file(j["path"].as_str().unwrap())) {
        Ok(Ok(c)) => c,
        _ => {
            emit(json!({"ev": "file", "name": j["name"], "st": "error"}));
            return;
        }
    };
    let sizes: Vec<usize> = c.get_input_wires().iter().map(|w| w.len()).collect();
    let lev = c.clone().level();
    let x: Vec<bool> = vmpc::ints(&j["x"]).into_iter().map(|b| b == 1).collect();
    let inp = bundles(&sizes, &x);
    let mut e = Eval::default();
    let a = record(quiet(|| c.evaluate(&inp, &mut e)), &e);
    let mut e = Eval::default();
    let b = record(quiet(|| lev.evaluate(&inp, &mut e)), &e);
    emit(json!({"ev": "file", "name": j["name"], "st": "ok", "sizes": sizes, "x": j["x"], "gates": a, "levels": b, "ands": c.num_and_gates()}));
}

fn main() {
    main_loop(|j, emit| match j["kind"].as_str().unwrap() {
        "circuit" => circuit(j, emit),
        "file" => file(j, emit),
        _ => panic!(),
    });
}
