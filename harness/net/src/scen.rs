//! Runs one scenario: sets the parties up, runs the lanes concurrently, records the history.
use crate::log::{Barriers, Log};
use crate::party::{Local, Remote, Res, hash, hex, payload};
use crate::proxy::Proxy;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

enum Party {
    In(Local),
    Out(Remote),
}
impl Party {
    fn op(&self, o: &Value) -> Res {
        match self {
            Party::In(l) => l.op(o),
            Party::Out(r) => r.op(o),
        }
    }
}

struct Ctx {
    log: Log,
    bars: Barriers,
    parties: Vec<Arc<Party>>,
    proxies: HashMap<(usize, usize), Arc<Proxy>>,
    marks: Mutex<HashMap<u64, u64>>,
    ctr: AtomicU64,
    abort: AtomicBool,
    done: AtomicUsize,
    deadline: u64,
}

fn u(v: &Value) -> usize {
    v.as_u64().unwrap_or(0) as usize
}

pub fn run(idx: usize, s: &Value) -> Vec<Value> {
    let backend = s["backend"].as_str().unwrap().to_string();
    let n = u(&s["n"]);
    let nets = u(&s["nets"]);
    let c = &s["cfg"];
    let pid = std::process::id() as usize;
    let (a, b) = (1 + (pid * 7 + idx / 250) % 250, 1 + idx % 250);
    let real = |p: usize| format!("127.{a}.{b}.{}:{}", 10 + p, 20000 + p);
    let via = |from: usize, to: usize| format!("127.{a}.{b}.{}:{}", 10 + to, 21000 + from);
    // proxies: the connecting party's view of the listening party's address
    let mut proxies = HashMap::new();
    for pr in s["proxy"].as_array().unwrap_or(&vec![]) {
        let (f, t) = (u(&pr[0]), u(&pr[1]));
        proxies.insert(
            (f, t),
            Proxy::start(
                via(f, t).parse().unwrap(),
                real(t).parse().unwrap(),
                s["pieces"].as_array().map(|v| v.iter().map(u).collect()).unwrap_or_default(),
                Duration::from_micros(s["pause"].as_u64().unwrap_or(400)),
            ),
        );
    }
    let children: Vec<usize> =
        s["children"].as_array().map(|v| v.iter().map(u).collect()).unwrap_or_default();
    let parties: Vec<Arc<Party>> = (0..n)
        .map(|p| {
            Arc::new(if children.contains(&p) {
                Party::Out(Remote::spawn())
            } else {
                Party::In(Local::new())
            })
        })
        .collect();
    let ctx = Arc::new(Ctx {
        log: Log::new(),
        bars: Barriers::default(),
        parties,
        proxies,
        marks: Mutex::default(),
        ctr: AtomicU64::new(1),
        abort: AtomicBool::new(false),
        done: AtomicUsize::new(0),
        deadline: s["deadline"].as_u64().unwrap_or(60_000),
    });
    let maxf: Vec<Value> = (0..n)
        .map(|p| {
            let m = if c["maxf"].is_array() { &c["maxf"][p] } else { &c["maxf"] };
            json!(m.as_u64().unwrap_or(64 * 1024 * 1024))
        })
        .collect();
    let num = |v: &Value| json!(v.as_i64().unwrap_or(-1));
    ctx.log.push(json!({"e": "reset", "sid": s["sid"], "backend": backend, "n": n, "nets": nets, "maxf": maxf,
        "timeout": num(&c["timeout"]), "flushto": num(&c["flush"]), "connect": num(&c["connect"]),
        "init": num(&c["init"]), "idle": num(&c["idle"]), "fam": s["fam"], "grace": num(&s["grace"]), "bound": num(&s["bound"])}));

    // certificates, one per party, valid for that party's address only
    let mut certs = vec![];
    let mut keys = vec![];
    if backend == "tls" || backend == "quic" {
        for p in 0..n {
            let host = real(p).rsplit_once(':').unwrap().0.to_string();
            let ck = rcgen::generate_simple_self_signed([host]).expect("cert");
            certs.push(json!(hex(ck.cert.der())));
            keys.push(json!(hex(&ck.key_pair.serialize_der())));
        }
    }
    // setup
    let mut threads = vec![];
    if backend == "local" {
        for k in 0..nets {
            let v = match c["timeout"].as_u64() {
                Some(t) => mpc_net::local::LocalNetwork::new_with_timeout(n, Some(Duration::from_millis(t))),
                None => mpc_net::local::LocalNetwork::new(n),
            };
            for (p, net) in v.into_iter().enumerate() {
                if let Party::In(l) = &*ctx.parties[p] {
                    l.put(k, Arc::new(net));
                }
            }
        }
        for p in 0..n {
            let ids: Vec<Value> = (0..nets)
                .map(|k| ctx.parties[p].op(&json!({"op": "id", "k": k})).map(|v| v["id"].clone()).unwrap_or(json!(-1)))
                .collect();
            ctx.log.push(json!({"e": "setup", "p": p, "ok": true, "ids": ids, "dt": 0}));
        }
    } else if s["setup"].as_str() != Some("lanes") {
        for p in 0..n {
            let o = setup_op(s, p, &backend, nets, n, &real, &via, &ctx, &certs, &keys);
            let ctx = ctx.clone();
            let delay = s["delay"][p].as_u64().unwrap_or(0);
            let skip = s["skip"].as_array().map(|v| v.iter().any(|x| u(x) == p)).unwrap_or(false);
            let auto_init = s["init"].as_str() != Some("lanes") && backend.starts_with("tcps");
            let wait = c["init"].clone();
            if skip {
                continue;
            }
            let hs = Arc::new(AtomicUsize::new(0));
            threads.push(std::thread::spawn(move || {
                let _ = &hs;
                std::thread::sleep(Duration::from_millis(delay));
                let t0 = Instant::now();
                let mut r = ctx.parties[p].op(&o);
                if r.is_ok() && auto_init {
                    // all handlers listen before the first session is started
                    ctx.bars.wait(1_000_000, n, 20_000);
                    let mut ids = vec![];
                    for k in 0..nets {
                        let q = ctx.parties[p].op(&json!({"op": "init", "k": k, "sid": 1000 + k, "wait": wait}));
                        match q {
                            Ok(v) => ids.push(v["ids"][0].clone()),
                            Err(m) => {
                                r = Err(m);
                                break;
                            }
                        }
                    }
                    if r.is_ok() {
                        r = Ok(json!({"ids": ids}));
                    }
                }
                let dt = t0.elapsed().as_millis() as u64;
                match r {
                    Ok(v) => ctx.log.push(json!({"e": "setup", "p": p, "ok": true, "ids": v["ids"], "dt": dt})),
                    Err(m) => ctx.log.push(json!({"e": "setup", "p": p, "ok": false, "ids": [], "dt": dt, "err": m})),
                }
            }));
        }
        let lim = s["setup_ms"].as_u64().unwrap_or(30_000);
        let end = Instant::now() + Duration::from_millis(lim);
        for t in threads.drain(..) {
            while !t.is_finished() && Instant::now() < end {
                std::thread::sleep(Duration::from_millis(2));
            }
            if t.is_finished() {
                let _ = t.join();
            }
        }
    }
    let setup_ops: Vec<Value> =
        (0..n).map(|p| setup_op(s, p, &backend, nets, n, &real, &via, &ctx, &certs, &keys)).collect();
    let setup_ops = Arc::new(setup_ops);
    // lanes
    let lanes = s["lanes"].as_array().cloned().unwrap_or_default();
    let cur: Vec<Arc<Mutex<Value>>> = lanes.iter().map(|_| Arc::new(Mutex::new(Value::Null))).collect();
    let nl = lanes.len();
    for (i, lane) in lanes.into_iter().enumerate() {
        let ctx = ctx.clone();
        let cur = cur[i].clone();
        let so = setup_ops.clone();
        std::thread::spawn(move || {
            lane_main(&ctx, &lane, &cur, &so);
            ctx.done.fetch_add(1, Ordering::SeqCst);
        });
    }
    let end = Instant::now() + Duration::from_millis(ctx.deadline);
    while ctx.done.load(Ordering::SeqCst) < nl && Instant::now() < end {
        std::thread::sleep(Duration::from_millis(2));
    }
    let hung = ctx.done.load(Ordering::SeqCst) < nl;
    if hung {
        for c in &cur {
            let v = c.lock().unwrap().clone();
            if !v.is_null() {
                ctx.log.push(json!({"e": "hang", "o": v["op"], "p": v["p"], "k": v["k"], "q": v["q"]}));
            }
        }
    }
    ctx.abort.store(true, Ordering::SeqCst);
    ctx.log.push(json!({"e": "end", "sid": s["sid"]}));
    let ev = ctx.log.close();
    for p in &ctx.parties {
        if let Party::Out(r) = &**p {
            r.kill();
        }
    }
    for p in ctx.proxies.values() {
        p.rst.store(true, Ordering::SeqCst);
        p.do_cut();
    }
    // in-process networks are torn down in the background (QUIC teardown is a rendezvous)
    std::thread::spawn(move || {
        let ts: Vec<_> = ctx
            .parties
            .iter()
            .cloned()
            .map(|p| {
                std::thread::spawn(move || {
                    for k in 0..16 {
                        let _ = p.op(&json!({"op": "drop", "k": k}));
                    }
                })
            })
            .collect();
        for t in ts {
            let _ = t.join();
        }
    });
    ev
}

#[allow(clippy::too_many_arguments)]
fn setup_op(
    s: &Value,
    p: usize,
    backend: &str,
    nets: usize,
    n: usize,
    real: &dyn Fn(usize) -> String,
    via: &dyn Fn(usize, usize) -> String,
    ctx: &Ctx,
    certs: &[Value],
    keys: &[Value],
) -> Value {
    let c = &s["cfg"];
    let order: Vec<usize> = match s["order"][p].as_array() {
        Some(o) => o.iter().map(u).collect(),
        None => (0..n).collect(),
    };
    let addrs: Vec<String> = (0..n)
        .map(|q| if ctx.proxies.contains_key(&(p, q)) { via(p, q) } else { real(q) })
        .collect();
    let maxf = if c["maxf"].is_array() { c["maxf"][p].clone() } else { c["maxf"].clone() };
    let tmo = if c["timeout"].is_array() { c["timeout"][p].clone() } else { c["timeout"].clone() };
    json!({"op": "setup", "cfg": {"backend": backend, "id": p, "nets": s["nets_req"].as_u64().unwrap_or(nets as u64), "order": order,
        "addrs": addrs, "bind": real(p), "certs": certs, "key": keys.get(p).cloned().unwrap_or(Value::Null),
        "timeout": tmo, "connect": c["connect"], "flush": c["flush"], "maxf": maxf, "init": c["init"], "idle": c["idle"]}})
}

fn lane_main(ctx: &Arc<Ctx>, lane: &Value, cur: &Mutex<Value>, setup_ops: &[Value]) {
    let p = u(&lane["p"]);
    let k0 = u(&lane["k"]);
    for o in lane["ops"].as_array().unwrap() {
        if ctx.abort.load(Ordering::SeqCst) {
            return;
        }
        let op = o[0].as_str().unwrap();
        let k = k0;
        let log = &ctx.log;
        let party = &ctx.parties[p];
        let t0 = Instant::now();
        let dt = || t0.elapsed().as_millis() as u64;
        let set = |q: &Value| *cur.lock().unwrap() = json!({"op": op, "p": p, "k": k, "q": q.as_i64().unwrap_or(-1)});
        match op {
            "send" => {
                let (to, len) = (u(&o[1]), u(&o[2]));
                let ctr = ctx.ctr.fetch_add(1, Ordering::SeqCst);
                let h = hash(&payload(p, to, k, ctr, len));
                set(&o[1]);
                log.push(json!({"e": "send", "p": p, "k": k, "q": to, "len": len, "h": h, "c": ctr}));
                let t0 = Instant::now();
                let r = party.op(&json!({"op": "send", "k": k, "p": p, "to": to, "len": len, "ctr": ctr}));
                ret(log, "sendret", p, k, to as i64, t0.elapsed().as_millis() as u64, r, json!({"c": ctr}));
            }
            "recv" => {
                let from = u(&o[1]);
                set(&o[1]);
                log.push(json!({"e": "rcall", "p": p, "k": k, "q": from}));
                let t0 = Instant::now();
                let r = party.op(&json!({"op": "recv", "k": k, "from": from}));
                ret(log, "recv", p, k, from as i64, t0.elapsed().as_millis() as u64, r, json!({}));
            }
            // receive until the first error, at most o[2] times
            "drain" => {
                let from = u(&o[1]);
                for _ in 0..u(&o[2]) {
                    set(&o[1]);
                    log.push(json!({"e": "rcall", "p": p, "k": k, "q": from}));
                    let t0 = Instant::now();
                    let r = party.op(&json!({"op": "recv", "k": k, "from": from}));
                    let bad = r.is_err();
                    ret(log, "recv", p, k, from as i64, t0.elapsed().as_millis() as u64, r, json!({}));
                    if bad {
                        break;
                    }
                }
            }
            "flush" => {
                set(&json!(-1));
                log.push(json!({"e": "fcall", "p": p, "k": k}));
                let t0 = Instant::now();
                let r = party.op(&json!({"op": "flush", "k": k}));
                ret(log, "flush", p, k, -1, t0.elapsed().as_millis() as u64, r, json!({}));
            }
            // repeat send+flush (with pauses) until flush or send fails, at most o[3] times
            "untilfail" => {
                let (to, len) = (u(&o[1]), u(&o[2]));
                let mut failed = false;
                for _ in 0..u(&o[3]) {
                    let ctr = ctx.ctr.fetch_add(1, Ordering::SeqCst);
                    let h = hash(&payload(p, to, k, ctr, len));
                    set(&o[1]);
                    log.push(json!({"e": "send", "p": p, "k": k, "q": to, "len": len, "h": h, "c": ctr}));
                    let r = party.op(&json!({"op": "send", "k": k, "p": p, "to": to, "len": len, "ctr": ctr}));
                    ret(log, "sendret", p, k, to as i64, 0, r, json!({"c": ctr}));
                    log.push(json!({"e": "fcall", "p": p, "k": k}));
                    let t0 = Instant::now();
                    let r = party.op(&json!({"op": "flush", "k": k}));
                    let bad = r.is_err();
                    ret(log, "flush", p, k, -1, t0.elapsed().as_millis() as u64, r, json!({}));
                    if bad {
                        failed = true;
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(20));
                }
                log.push(json!({"e": "mustfail", "p": p, "k": k, "failed": failed}));
            }
            "stats" | "diff" => {
                set(&json!(-1));
                log.push(json!({"e": "scall", "p": p, "k": k}));
                let r = party.op(&json!({"op": op, "k": k}));
                ret(log, op, p, k, -1, dt(), r, json!({}));
            }
            "drop" | "leak" => {
                set(&json!(-1));
                log.push(json!({"e": if op == "drop" { "dcall" } else { "leak" }, "p": p, "k": k}));
                let t0 = Instant::now();
                let r = party.op(&json!({"op": op, "k": k}));
                if op == "drop" {
                    ret(log, op, p, k, -1, t0.elapsed().as_millis() as u64, r, json!({}));
                }
            }
            "fork" => {
                set(&json!(-1));
                let r = party.op(&json!({"op": "fork", "k": k, "to_k": u(&o[1])}));
                ret(log, op, p, u(&o[1]), -1, dt(), r, json!({}));
            }
            "setup" => {
                set(&json!(-1));
                let r = party.op(&setup_ops[p]);
                ret(log, "setup", p, k, -1, dt(), r, json!({}));
            }
            // ["init", session, wait_ms|null]
            "init" => {
                set(&o[1]);
                log.push(json!({"e": "icall", "p": p, "k": k, "s": o[1], "w": o[2].as_i64().unwrap_or(-1)}));
                let t0 = Instant::now();
                let r = party.op(&json!({"op": "init", "k": k, "sid": o[1], "sidhi": o[3], "wait": o[2]}));
                ret(log, "init", p, k, -1, t0.elapsed().as_millis() as u64, r, json!({"s": o[1], "w": o[2].as_i64().unwrap_or(-1)}));
            }
            "kill" => {
                if let Party::Out(r) = &**party {
                    log.push(json!({"e": "kill", "p": p}));
                    r.kill();
                    log.push(json!({"e": "killed", "p": p}));
                }
            }
            "exit" => {
                if let Party::Out(r) = &**party {
                    log.push(json!({"e": "kill", "p": p}));
                    let _ = r.op(&json!({"op": "exit"}));
                    r.kill();
                    log.push(json!({"e": "killed", "p": p}));
                }
            }
            "sleep" => std::thread::sleep(Duration::from_millis(o[1].as_u64().unwrap())),
            "bar" => {
                set(&json!(-1));
                if !ctx.bars.wait(o[1].as_u64().unwrap(), u(&o[2]), ctx.deadline) {
                    return;
                }
            }
            // ["mark", from, to, dir, id]: remember the number of bytes forwarded so far
            "mark" => {
                let px = &ctx.proxies[&(u(&o[1]), u(&o[2]))];
                let c = px.dirs[u(&o[3])].count.load(Ordering::SeqCst);
                ctx.marks.lock().unwrap().insert(o[4].as_u64().unwrap(), c);
            }
            // ["cut", conn, lis, dir, mode, m0, m1, num, den, delta]: cut after the fraction num/den (+delta bytes) of
            // the wire cost between marks m0 and m1, counted from now
            "cut" => {
                let (f, t, d) = (u(&o[1]), u(&o[2]), u(&o[3]));
                let px = &ctx.proxies[&(f, t)];
                let g = ctx.marks.lock().unwrap();
                let cost = g[&o[6].as_u64().unwrap()] - g[&o[5].as_u64().unwrap()];
                drop(g);
                let mut b = (cost * o[7].as_u64().unwrap() / o[8].as_u64().unwrap()) as i64 + o[9].as_i64().unwrap();
                b = b.clamp(0, cost as i64);
                let full = if b == cost as i64 { 1 } else { 0 };
                if o[4] == "rst" {
                    px.rst.store(true, Ordering::SeqCst);
                }
                let (src, dst) = if d == 0 { (f, t) } else { (t, f) };
                log.push(json!({"e": "cut", "p": src, "q": dst, "full": full, "b": b, "cost": cost, "rst": o[4] == "rst"}));
                let c = px.dirs[d].count.load(Ordering::SeqCst) as i64;
                px.dirs[d].limit.store(c + b, Ordering::SeqCst);
                if b == 0 {
                    px.do_cut();
                }
            }
            "waitcut" => {
                let px = &ctx.proxies[&(u(&o[1]), u(&o[2]))];
                let end = Instant::now() + Duration::from_millis(10_000);
                while !px.cut.load(Ordering::SeqCst) && Instant::now() < end {
                    std::thread::sleep(Duration::from_millis(1));
                }
            }
            "stall" => {
                let (f, t, d) = (u(&o[1]), u(&o[2]), u(&o[3]));
                let on = u(&o[4]) == 1;
                let (src, dst) = if d == 0 { (f, t) } else { (t, f) };
                log.push(json!({"e": "stall", "p": src, "q": dst, "on": on}));
                ctx.proxies[&(f, t)].dirs[d].stall.store(on, Ordering::SeqCst);
            }
            "stalled" => log.push(json!({"e": "stall", "p": o[1], "q": o[2], "on": o[3]})),
            // ["inject", conn, lis, dir, hexbytes]
            "inject" => {
                let (f, t, d) = (u(&o[1]), u(&o[2]), u(&o[3]));
                let (src, dst) = if d == 0 { (f, t) } else { (t, f) };
                log.push(json!({"e": "inject", "p": src, "q": dst, "kind": o[5]}));
                ctx.proxies[&(f, t)].inject(d, &crate::party::unhex(o[4].as_str().unwrap()));
            }
            x => {
                log.push(json!({"e": "badop", "o": x}));
            }
        }
        *cur.lock().unwrap() = Value::Null;
    }
}

#[allow(clippy::too_many_arguments)]
fn ret(log: &Log, e: &str, p: usize, k: usize, q: i64, dt: u64, r: Res, extra: Value) {
    let mut v = json!({"e": e, "p": p, "k": k, "q": q, "dt": dt});
    match r {
        Ok(x) => {
            v["ok"] = json!(true);
            for (a, b) in x.as_object().into_iter().flatten() {
                v[a] = b.clone();
            }
        }
        Err(m) => {
            v["ok"] = json!(false);
            v["panic"] = json!(m.starts_with("PANIC"));
            v["err"] = json!(m);
        }
    }
    for (a, b) in extra.as_object().into_iter().flatten() {
        v[a] = b.clone();
    }
    log.push(v);
}
