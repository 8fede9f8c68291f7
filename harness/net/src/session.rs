//! One party of the real session networks; the other parties are played here, connection by
//! connection. Executes plans (behaviours of spec/session/SessionGen) and records what can be seen.
use mpc_net::{Network, tcp_session, tcp_session_blocking};
use serde_json::{Value, json};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn sid(s: u64) -> u128 {
    // equal in their low halves, equal in their high halves, equal except for the topmost bit
    match s {
        1 => 1,
        2 => (1u128 << 64) | 1,
        3 => (1u128 << 127) | 1,
        4 => 2,
        5 => (1u128 << 127) | (1 << 64) | 1,
        6 => u128::MAX,
        7 => u128::MAX >> 1,
        8 => 0,
        x => (x as u128) << 100,
    }
}

struct Raw {
    s: Option<TcpStream>,
    buf: Vec<u8>,
    closed: bool,
    owner: Option<(usize, usize)>,
    born: Instant,
}

impl Raw {
    fn new(s: TcpStream, id: usize) -> Self {
        let _ = s.set_nodelay(true);
        let mut r = Raw { s: Some(s), buf: vec![], closed: false, owner: None, born: Instant::now() };
        let tag = format!("c{id}");
        let mut f = (tag.len() as u64).to_be_bytes().to_vec();
        f.extend_from_slice(tag.as_bytes());
        let _ = r.s.as_mut().unwrap().write_all(&f);
        let _ = r.s.as_ref().unwrap().set_nonblocking(true);
        r
    }
    fn poll(&mut self) {
        let Some(s) = self.s.as_mut() else { return };
        let mut b = [0u8; 4096];
        loop {
            match s.read(&mut b) {
                Ok(0) => break,
                Ok(n) => self.buf.extend_from_slice(&b[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => return,
                Err(_) => break,
            }
        }
        self.closed = true;
        self.s = None;
    }
    fn frames(&self) -> Vec<String> {
        let mut v = vec![];
        let mut b = &self.buf[..];
        while b.len() >= 8 {
            let l = u64::from_be_bytes(b[..8].try_into().unwrap()) as usize;
            if b.len() < 8 + l {
                break;
            }
            v.push(String::from_utf8_lossy(&b[8..8 + l]).to_string());
            b = &b[8 + l..];
        }
        if !b.is_empty() {
            v.push("partial".into());
        }
        v
    }
}

type Out = Arc<Mutex<Option<(Result<Arc<dyn Network>, String>, u64)>>>;

struct Call {
    out: Out,
    start: Instant,
    st: &'static str,
    got: Vec<i64>,
    net: Option<Arc<dyn Network>>,
}

enum H {
    A(Arc<tcp_session::TcpNetworkHandler>, Arc<tokio::runtime::Runtime>),
    B(Arc<tcp_session_blocking::TcpNetworkHandler>),
}

pub fn run(id: usize, p: &Value) -> Vec<Value> {
    let me = p["me"].as_u64().unwrap() as usize;
    let n = p["n"].as_u64().unwrap() as usize;
    let giveup = p["mode"].as_str() == Some("giveup");
    let blocking = p["backend"].as_str() == Some("tcpsb");
    let idle = Duration::from_millis(if giveup { 30_000 } else { 1500 });
    let wait = if giveup { Some(Duration::from_millis(1000)) } else { None };
    let addr = |q: usize| format!("127.{}.{}.{}:{}", 100 + id / 200, 1 + id % 200, 10 + q, 21000 + q);
    let mut ev = vec![json!({"e": "sreset", "me": me, "n": n, "id": id, "backend": p["backend"]})];

    // lower peers listen
    let incoming: Arc<Mutex<Vec<(usize, TcpStream, u128, u64)>>> = Arc::default();
    for q in 0..me {
        let l = TcpListener::bind(addr(q)).expect("bind");
        let inc = incoming.clone();
        std::thread::spawn(move || {
            for s in l.incoming() {
                let Ok(mut s) = s else { continue };
                let mut h = [0u8; 24];
                if s.read_exact(&mut h).is_err() {
                    continue;
                }
                let a = u128::from_be_bytes(h[..16].try_into().unwrap());
                let b = u64::from_be_bytes(h[16..].try_into().unwrap());
                inc.lock().unwrap().push((q, s, a, b));
            }
        });
    }
    let addrs: Vec<String> = (0..n).map(addr).collect();
    let h = if blocking {
        let h = tcp_session_blocking::TcpNetworkHandler::new(tcp_session_blocking::NetworkConfig {
            party_id: me,
            bind_addr: addr(me).parse().unwrap(),
            node_addrs: addrs,
            init_session_timeout: wait,
            timeout: Some(Duration::from_millis(3000)),
            flush_timeout: None,
            time_to_idle: idle,
            max_frame_length: 1 << 20,
        });
        h.map(|h| H::B(Arc::new(h)))
    } else {
        let rt = Arc::new(
            tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().expect("rt"),
        );
        let h = rt.block_on(tcp_session::TcpNetworkHandler::new(tcp_session::NetworkConfig {
            party_id: me,
            bind_addr: addr(me).parse().unwrap(),
            node_addrs: addrs,
            init_session_timeout: wait,
            timeout: Some(Duration::from_millis(3000)),
            flush_timeout: None,
            time_to_idle: idle,
            max_frame_length: 1 << 20,
        }));
        h.map(|h| H::A(Arc::new(h), rt))
    };
    let h = Arc::new(h.expect("handler"));
    let t_start = Instant::now();
    let mut conns: Vec<Raw> = vec![];
    let mut calls: Vec<Call> = vec![];
    let mut misc: Vec<String> = vec![];

    for st in p["steps"].as_array().unwrap() {
        let o = st["o"].as_str().unwrap();
        let (s, q) = (st["s"].as_u64().unwrap_or(0), st["q"].as_u64().unwrap_or(0) as usize);
        let exp = &st["exp"];
        let mut patience = Duration::from_millis(3000);
        match o {
            "start" => {
                let out: Out = Arc::default();
                let (h2, out2) = (h.clone(), out.clone());
                let start = Instant::now();
                std::thread::spawn(move || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match &*h2 {
                        H::A(h, rt) => rt
                            .block_on(async {
                                match wait {
                                    Some(t) => match tokio::time::timeout(t, h.init_session(sid(s))).await {
                                        Ok(r) => r,
                                        Err(_) => Err(eyre::eyre!("TIMEOUT")),
                                    },
                                    None => h.init_session(sid(s)).await,
                                }
                            })
                            .map(|n| Arc::new(n) as Arc<dyn Network>)
                            .map_err(|e| format!("{e:#}")),
                        H::B(h) => h
                            .init_session(sid(s))
                            .map(|n| Arc::new(n) as Arc<dyn Network>)
                            .map_err(|e| format!("{e:#}")),
                    }))
                    .unwrap_or_else(|_| Err("PANIC".into()));
                    *out2.lock().unwrap() = Some((r, start.elapsed().as_millis() as u64));
                });
                calls.push(Call { out, start, st: "wait", got: vec![0; n], net: None });
                // connections to the lower peers, in order
                for want in 0..me {
                    let end = Instant::now() + Duration::from_secs(3);
                    loop {
                        let f = {
                            let mut g = incoming.lock().unwrap();
                            g.iter().position(|x| x.0 == want).map(|i| g.remove(i))
                        };
                        if let Some((_, sock, a, b)) = f {
                            if a != sid(s) || b != me as u64 {
                                misc.push(format!("announced {a} {b}"));
                            }
                            let id = conns.len() + 1;
                            conns.push(Raw::new(sock, id));
                            break;
                        }
                        if Instant::now() > end {
                            misc.push(format!("no connection to {want}"));
                            break;
                        }
                        std::thread::sleep(Duration::from_millis(2));
                    }
                }
            }
            "dial" | "garbage" => {
                let mut c = TcpStream::connect(addr(me)).expect("dial");
                let mut hd = sid(if o == "dial" { s } else { 1 }).to_be_bytes().to_vec();
                hd.extend_from_slice(&(q.max(me + 1) as u64).to_be_bytes());
                if o == "garbage" {
                    let l = [0, 10, 23][s as usize % 3];
                    let _ = c.write_all(&hd[..l]);
                    drop(c);
                } else {
                    // the announcement may arrive in pieces
                    if conns.len() % 2 == 0 {
                        let _ = c.write_all(&hd);
                    } else {
                        let _ = c.set_nodelay(true);
                        let _ = c.write_all(&hd[..5]);
                        std::thread::sleep(Duration::from_millis(3));
                        let _ = c.write_all(&hd[5..]);
                    }
                    let id = conns.len() + 1;
                    conns.push(Raw::new(c, id));
                }
            }
            "giveup" => patience = Duration::from_millis(6000),
            "idle" => patience = Duration::from_millis(8000),
            "drop" => {
                let c = &mut calls[s as usize - 1];
                if c.net.take().is_some() {
                    c.st = "done";
                }
            }
            // wait until `q` ms after the handler was created
            "at" => {
                let t = Duration::from_millis(q as u64);
                if let Some(d) = t.checked_sub(t_start.elapsed()) {
                    std::thread::sleep(d);
                }
            }
            _ => {}
        }
        // observe, until it is what the model expects or patience is over
        let t0 = Instant::now();
        std::thread::sleep(Duration::from_millis(25));
        let mut obs;
        loop {
            for w in 0..calls.len() {
                if calls[w].st == "wait" {
                    let r = calls[w].out.lock().unwrap().take();
                    if let Some((r, dt)) = r {
                        match r {
                            Ok(net) => {
                                calls[w].st = "ok";
                                if net.id() != me {
                                    misc.push(format!("id {}", net.id()));
                                }
                                for q in (0..n).filter(|x| *x != me) {
                                    let tag = net.recv(q).map(|b| String::from_utf8_lossy(&b).to_string());
                                    let c = tag.ok().and_then(|t| t.strip_prefix('c').and_then(|x| x.parse::<i64>().ok()));
                                    calls[w].got[q] = c.unwrap_or(-1);
                                    if let Some(c) = c {
                                        if let Some(r) = conns.get_mut(c as usize - 1) {
                                            if r.owner.is_some() {
                                                misc.push(format!("connection {c} handed out twice"));
                                            }
                                            r.owner = Some((w, q));
                                        }
                                    }
                                    if net.send(q, format!("n{w}:{q}").into_bytes().into()).is_err() {
                                        misc.push(format!("send {w} {q}"));
                                    }
                                }
                                let _ = net.flush();
                                // the frames arrive where they belong
                                let end = Instant::now() + Duration::from_secs(3);
                                loop {
                                    let mut all = true;
                                    for r in conns.iter_mut() {
                                        r.poll();
                                        if let Some((w2, q)) = r.owner {
                                            if w2 == w && r.frames() != vec![format!("n{w}:{q}")] {
                                                all = false;
                                            }
                                        }
                                    }
                                    if all || Instant::now() > end {
                                        break;
                                    }
                                    std::thread::sleep(Duration::from_millis(2));
                                }
                                calls[w].net = Some(net);
                            }
                            Err(m) => {
                                calls[w].st = "fail";
                                if m == "PANIC" {
                                    misc.push("panic".into());
                                }
                                if giveup && dt < 990 {
                                    ev.push(json!({"e": "early", "dt": dt, "err": m}));
                                }
                            }
                        }
                    }
                }
            }
            for r in conns.iter_mut() {
                r.poll();
            }
            for (q, _, a, b) in incoming.lock().unwrap().drain(..) {
                misc.push(format!("unexpected connection to {q}: {a} {b}"));
            }
            let mut m = misc.clone();
            for (j, r) in conns.iter().enumerate() {
                let want = r.owner.map(|(w, q)| vec![format!("n{w}:{q}")]).unwrap_or_default();
                if r.frames() != want {
                    m.push(format!("connection {} carries {:?}", j + 1, r.frames()));
                }
            }
            obs = json!({
                "conns": conns.iter().map(|r| if r.closed { 0 } else { 1 }).collect::<Vec<_>>(),
                "calls": calls.iter().map(|c| c.st).collect::<Vec<_>>(),
                "got": calls.iter().map(|c| c.got.clone()).collect::<Vec<_>>(),
                "misc": m,
            });
            let same = exp.is_null()
                || (obs["conns"] == exp["conns"] && obs["calls"] == exp["calls"] && obs["got"] == exp["got"] && m.is_empty());
            if same || t0.elapsed() > patience {
                break;
            }
            std::thread::sleep(Duration::from_millis(3));
        }
        // timing assumptions of the plan
        let waiting_age = calls.iter().filter(|c| c.st == "wait").map(|c| c.start.elapsed().as_millis()).max().unwrap_or(0);
        let pend_age = conns.iter().filter(|r| !r.closed && r.owner.is_none()).map(|r| r.born.elapsed().as_millis()).max().unwrap_or(0);
        let free = p["free"].as_bool() == Some(true);
        if !free && ((giveup && o != "giveup" && waiting_age > 800) || (!giveup && o != "idle" && waiting_age.max(pend_age) > 1200)) {
            ev.push(json!({"e": "void", "wa": waiting_age as u64, "pa": pend_age as u64}));
            break;
        }
        ev.push(json!({"e": "op", "o": o, "s": s, "q": q, "obs": obs}));
    }
    // let the party's own threads end: drop the networks, close the peers' ends
    for c in calls.iter_mut() {
        c.net = None;
    }
    std::mem::forget(h);
    ev
}
