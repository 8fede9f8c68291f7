//! vnet: scenario interpreter for the mpc-net transports.
//!
//! `vnet run SCENARIOS.ndjson TRACE.ndjson [workers]` executes every scenario (one JSON object per
//! line) against the real transports and writes, per scenario, the recorded event history.
//! `vnet child` serves one party over stdin/stdout for scenarios which kill a party.
mod log;
mod party;
mod proxy;
mod scen;
mod session;

use serde_json::Value;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

fn main() {
    let _ = rustls::crypto::aws_lc_rs::default_provider().install_default();
    // Panics of code under test are data: they are caught at the call and logged there.
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("child") => party::child_main(),
        Some(mode @ ("run" | "session")) => {
            let exec: fn(usize, &Value) -> Vec<Value> = if mode == "run" { scen::run } else { session::run };
            let f = std::io::BufReader::new(std::fs::File::open(&args[2]).expect("scenarios"));
            let scens: Vec<Value> = f
                .lines()
                .map(|l| l.expect("line"))
                .filter(|l| !l.trim().is_empty())
                .map(|l| serde_json::from_str(&l).expect("scenario json"))
                .collect();
            let workers: usize = args.get(4).map(|w| w.parse().expect("workers")).unwrap_or(12);
            let total = scens.len();
            let scens = Arc::new(scens);
            let next = Arc::new(AtomicUsize::new(0));
            let out: Arc<Mutex<Vec<Option<Vec<Value>>>>> = Arc::new(Mutex::new(vec![None; total]));
            let hs: Vec<_> = (0..workers)
                .map(|_| {
                    let (scens, next, out) = (scens.clone(), next.clone(), out.clone());
                    std::thread::spawn(move || {
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= scens.len() {
                                break;
                            }
                            let ev = exec(i, &scens[i]);
                            out.lock().unwrap()[i] = Some(ev);
                        }
                    })
                })
                .collect();
            for h in hs {
                h.join().expect("worker");
            }
            let mut w = std::io::BufWriter::new(std::fs::File::create(&args[3]).expect("trace"));
            for evs in out.lock().unwrap().iter().flatten() {
                for e in evs {
                    writeln!(w, "{e}").expect("write");
                }
            }
            w.flush().expect("flush");
            drop(w);
            // Leaked or blocked threads of code under test must not keep the process alive.
            std::process::exit(0);
        }
        _ => {
            eprintln!("usage: vnet run SCEN TRACE [workers] | vnet child");
            std::process::exit(2);
        }
    }
}
