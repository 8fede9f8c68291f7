//! One party: the real network objects, in this process or in a child process driven by RPC.
use bytes::Bytes;
use mpc_net::config::{Address, NetworkConfig, NetworkParty, TlsConfig};
use mpc_net::{Network, quic::QuicNetwork, tcp::TcpNetwork, tls::TlsNetwork};
use mpc_net::{tcp_session, tcp_session_blocking};
use rustls::pki_types::{CertificateDer, PrivateKeyDer, PrivatePkcs8KeyDer};
use serde_json::{Value, json};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, mpsc};
use std::time::Duration;

pub fn payload(from: usize, to: usize, k: usize, ctr: u64, len: usize) -> Vec<u8> {
    let mut s = 0x9E37_79B9_7F4A_7C15u64
        ^ (from as u64 + 1).wrapping_mul(0xBF58_476D_1CE4_E5B9)
        ^ (to as u64 + 11).wrapping_mul(0x94D0_49BB_1331_11EB)
        ^ (k as u64 + 101).wrapping_mul(0xD6E8_FEB8_6659_FD93)
        ^ (ctr + 1).wrapping_mul(0xA076_1D64_78BD_642F);
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        v.extend_from_slice(&s.to_le_bytes());
    }
    v.truncate(len);
    v
}

/// 30-bit content hash (FNV-1a over 8-byte words, TLC integers are 32 bit).
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (b.len() as u64);
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x0000_0100_0000_01B3);
        h ^= h >> 29;
    }
    (h ^ (h >> 32)) & 0x3fff_ffff
}

pub type Res = Result<Value, String>;

fn ms(v: &Value) -> Option<Duration> {
    v.as_u64().map(Duration::from_millis)
}

enum Handler {
    None,
    Async(Arc<tcp_session::TcpNetworkHandler>),
    Blocking(Arc<tcp_session_blocking::TcpNetworkHandler>),
}

/// In-process party.
pub struct Local {
    nets: Mutex<HashMap<usize, Arc<dyn Network>>>,
    quic: Mutex<HashMap<usize, Arc<QuicNetwork>>>,
    handler: Mutex<Handler>,
    rt: Mutex<Option<Arc<tokio::runtime::Runtime>>>,
    snaps: Mutex<HashMap<usize, mpc_net::ConnectionStats>>,
}

fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(format!("PANIC: {m}"))
        }
    }
}

fn e<T>(r: eyre::Result<T>) -> Result<T, String> {
    r.map_err(|x| format!("{x:#}"))
}

impl Local {
    pub fn new() -> Self {
        Local {
            nets: Mutex::default(),
            quic: Mutex::default(),
            handler: Mutex::new(Handler::None),
            rt: Mutex::new(None),
            snaps: Mutex::default(),
        }
    }
    pub fn put(&self, k: usize, n: Arc<dyn Network>) {
        self.nets.lock().unwrap().insert(k, n);
    }
    fn net(&self, k: usize) -> Result<Arc<dyn Network>, String> {
        self.nets.lock().unwrap().get(&k).cloned().ok_or_else(|| "NONET".to_string())
    }
    fn runtime(&self) -> Arc<tokio::runtime::Runtime> {
        let mut g = self.rt.lock().unwrap();
        g.get_or_insert_with(|| {
            Arc::new(
                tokio::runtime::Builder::new_multi_thread()
                    .worker_threads(2)
                    .enable_all()
                    .build()
                    .expect("runtime"),
            )
        })
        .clone()
    }

    /// c: {"backend","id","nets","ids":[..order..],"addrs":{"0":"127..:p"},"bind":..,"certs":[hex],"key":hex,
    ///     "timeout","connect","flush","maxf"}
    pub fn setup(&self, c: &Value) -> Res {
        let backend = c["backend"].as_str().unwrap_or("");
        let id = c["id"].as_u64().unwrap_or(0) as usize;
        let k = c["nets"].as_u64().unwrap_or(1) as usize;
        let bind = c["bind"].as_str().unwrap_or("").parse().map_err(|_| "bind addr".to_string())?;
        if backend == "tcps" || backend == "tcpsb" {
            let addrs: Vec<String> = c["order"]
                .as_array()
                .unwrap()
                .iter()
                .map(|i| c["addrs"][i.as_u64().unwrap() as usize].as_str().unwrap().to_string())
                .collect();
            let idle = ms(&c["idle"]).unwrap_or(Duration::from_secs(30));
            let maxf = c["maxf"].as_u64().map(|x| x as usize).unwrap_or(mpc_net::DEFAULT_MAX_FRAME_LENGTH);
            if backend == "tcps" {
                let rt = self.runtime();
                let h = e(rt.block_on(tcp_session::TcpNetworkHandler::new(tcp_session::NetworkConfig {
                    party_id: id,
                    bind_addr: bind,
                    node_addrs: addrs,
                    init_session_timeout: ms(&c["init"]),
                    timeout: ms(&c["timeout"]),
                    flush_timeout: ms(&c["flush"]),
                    time_to_idle: idle,
                    max_frame_length: maxf,
                })))?;
                *self.handler.lock().unwrap() = Handler::Async(Arc::new(h));
            } else {
                let h = e(tcp_session_blocking::TcpNetworkHandler::new(
                    tcp_session_blocking::NetworkConfig {
                        party_id: id,
                        bind_addr: bind,
                        node_addrs: addrs,
                        init_session_timeout: ms(&c["init"]),
                        timeout: ms(&c["timeout"]),
                        flush_timeout: ms(&c["flush"]),
                        time_to_idle: idle,
                        max_frame_length: maxf,
                    },
                ))?;
                *self.handler.lock().unwrap() = Handler::Blocking(Arc::new(h));
            }
            return Ok(json!({"ids": []}));
        }
        let parties: Vec<NetworkParty> = c["order"]
            .as_array()
            .unwrap()
            .iter()
            .map(|i| {
                let i = i.as_u64().unwrap() as usize;
                let a = c["addrs"][i].as_str().unwrap();
                let (h, p) = a.rsplit_once(':').unwrap();
                NetworkParty::new(i, Address::new(h.to_string(), p.parse().unwrap()))
            })
            .collect();
        let mut b = NetworkConfig::builder(id, bind, parties);
        if let Some(d) = ms(&c["timeout"]) {
            b = b.timeout(d);
        }
        if let Some(d) = ms(&c["connect"]) {
            b = b.connect_timeout(d);
        }
        if let Some(d) = ms(&c["flush"]) {
            b = b.flush_timeout(d);
        }
        if let Some(m) = c["maxf"].as_u64() {
            b = b.max_frame_length(m as usize);
        }
        if backend != "tcp" {
            let certs: Vec<CertificateDer<'static>> = c["certs"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| CertificateDer::from(unhex(x.as_str().unwrap())))
                .collect();
            let key = PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(unhex(c["key"].as_str().unwrap())));
            b = b.tls_config(TlsConfig::new(key, certs));
        }
        let cfg = b.build();
        fn arcs<T: Network + 'static, const N: usize>(a: [T; N]) -> Vec<Arc<dyn Network>> {
            a.into_iter().map(|x| Arc::new(x) as Arc<dyn Network>).collect()
        }
        let nets: Vec<Arc<dyn Network>> = guard(|| match (backend, k) {
            ("tcp", 0) => Ok(vec![Arc::new(e(TcpNetwork::new(cfg))?) as Arc<dyn Network>]),
            ("tcp", 1) => Ok(arcs(e(TcpNetwork::networks::<1>(cfg))?)),
            ("tcp", 2) => Ok(arcs(e(TcpNetwork::networks::<2>(cfg))?)),
            ("tcp", 3) => Ok(arcs(e(TcpNetwork::networks::<3>(cfg))?)),
            ("tcp", 8) => Ok(arcs(e(TcpNetwork::networks::<8>(cfg))?)),
            ("tls", 0) => Ok(vec![Arc::new(e(TlsNetwork::new(cfg))?) as Arc<dyn Network>]),
            ("tls", 1) => Ok(arcs(e(TlsNetwork::networks::<1>(cfg))?)),
            ("tls", 2) => Ok(arcs(e(TlsNetwork::networks::<2>(cfg))?)),
            ("tls", 3) => Ok(arcs(e(TlsNetwork::networks::<3>(cfg))?)),
            ("tls", 8) => Ok(arcs(e(TlsNetwork::networks::<8>(cfg))?)),
            ("quic", _) => {
                let n0 = Arc::new(e(QuicNetwork::new(cfg))?);
                let mut v: Vec<Arc<dyn Network>> = vec![n0.clone()];
                let mut q = vec![n0.clone()];
                for i in 1..k {
                    // forks are taken alternately from the root and from the previous fork
                    let src = if i % 2 == 0 { q[i - 1].clone() } else { n0.clone() };
                    let f = Arc::new(e(src.fork())?);
                    v.push(f.clone());
                    q.push(f);
                }
                drop(n0);
                let mut g = self.quic.lock().unwrap();
                for (i, n) in q.into_iter().enumerate() {
                    g.insert(i, n);
                }
                Ok(v)
            }
            _ => Err("BADBACKEND".into()),
        })?;
        let ids: Vec<usize> = nets.iter().map(|n| n.id()).collect();
        let mut g = self.nets.lock().unwrap();
        for (i, n) in nets.into_iter().enumerate() {
            g.insert(i, n);
        }
        Ok(json!({"ids": ids}))
    }

    pub fn op(&self, o: &Value) -> Res {
        let k = o["k"].as_u64().unwrap_or(0) as usize;
        guard(|| match o["op"].as_str().unwrap_or("") {
            "setup" => self.setup(&o["cfg"]),
            "send" => {
                let (p, to) = (o["p"].as_u64().unwrap() as usize, o["to"].as_u64().unwrap() as usize);
                let data = payload(p, to, k, o["ctr"].as_u64().unwrap(), o["len"].as_u64().unwrap() as usize);
                e(self.net(k)?.send(to, Bytes::from(data)))?;
                Ok(json!({}))
            }
            "recv" => {
                let b = e(self.net(k)?.recv(o["from"].as_u64().unwrap() as usize))?;
                Ok(json!({"len": b.len(), "h": hash(&b)}))
            }
            "flush" => {
                e(self.net(k)?.flush())?;
                Ok(json!({}))
            }
            "stats" => {
                let s = self.net(k)?.get_connection_stats();
                let v: Vec<Value> =
                    s.iter().map(|(id, (a, b))| json!([id, a, b])).collect();
                for (id, x) in s.iter() {
                    if s.get(id) != Some(x) {
                        return Err("STATSGET".into());
                    }
                }
                let disp = s.to_string().lines().count();
                self.snaps.lock().unwrap().insert(k, s);
                Ok(json!({"st": v, "disp": disp}))
            }
            "diff" => {
                // difference between now and the previous statistics call on this network
                let now = self.net(k)?.get_connection_stats();
                let mut g = self.snaps.lock().unwrap();
                let zero = mpc_net::ConnectionStats::new(now.iter().count(), Default::default());
                let d = now.get_diff_to(g.get(&k).unwrap_or(&zero));
                let mut v: Vec<Value> = d.iter().map(|(id, (x, y))| json!([id, x, y])).collect();
                v.sort_by_key(|x| x[0].as_u64());
                g.entry(k).or_insert(zero);
                Ok(json!({"st": v}))
            }
            "id" => Ok(json!({"id": self.net(k)?.id()})),
            "drop" => {
                self.quic.lock().unwrap().remove(&k);
                let n = self.nets.lock().unwrap().remove(&k);
                match n {
                    Some(n) => {
                        // other lanes may still be inside a call on this network; the last one drops it
                        drop(n);
                        Ok(json!({}))
                    }
                    None => Err("NONET".into()),
                }
            }
            "leak" => {
                if let Some(q) = self.quic.lock().unwrap().remove(&k) {
                    std::mem::forget(q);
                }
                if let Some(n) = self.nets.lock().unwrap().remove(&k) {
                    std::mem::forget(n);
                }
                Ok(json!({}))
            }
            "fork" => {
                let to = o["to_k"].as_u64().unwrap() as usize;
                let src = self.quic.lock().unwrap().get(&k).cloned().ok_or("NONET")?;
                let f = Arc::new(e(src.fork())?);
                let id = f.id();
                self.quic.lock().unwrap().insert(to, f.clone());
                self.put(to, f);
                Ok(json!({"ids": [id]}))
            }
            "init" => {
                let sid = crate::session::sid(o["sid"].as_u64().unwrap());
                enum H {
                    A(Arc<tcp_session::TcpNetworkHandler>),
                    B(Arc<tcp_session_blocking::TcpNetworkHandler>),
                }
                let h = match &*self.handler.lock().unwrap() {
                    Handler::Async(h) => H::A(h.clone()),
                    Handler::Blocking(h) => H::B(h.clone()),
                    Handler::None => return Err("NOHANDLER".into()),
                };
                let n: Arc<dyn Network> = match h {
                    H::A(h) => {
                        let rt = self.runtime();
                        let to = ms(&o["wait"]);
                        let r = rt.block_on(async {
                            match to {
                                Some(t) => match tokio::time::timeout(t, h.init_session(sid)).await {
                                    Ok(r) => r,
                                    Err(_) => Err(eyre::eyre!("TIMEOUT")),
                                },
                                None => h.init_session(sid).await,
                            }
                        });
                        Arc::new(e(r)?)
                    }
                    H::B(h) => Arc::new(e(h.init_session(sid))?),
                };
                let id = n.id();
                self.put(k, n);
                Ok(json!({"ids": [id]}))
            }
            x => Err(format!("BADOP {x}")),
        })
    }
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// A party living in a child process.
pub struct Remote {
    child: Mutex<Child>,
    stdin: Mutex<std::process::ChildStdin>,
    pending: Arc<Mutex<HashMap<u64, mpsc::Sender<Res>>>>,
    next: AtomicU64,
}

impl Remote {
    pub fn spawn() -> Remote {
        let mut c = Command::new(std::env::current_exe().expect("exe"))
            .arg("child")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn child");
        let stdin = c.stdin.take().unwrap();
        let stdout = c.stdout.take().unwrap();
        let pending: Arc<Mutex<HashMap<u64, mpsc::Sender<Res>>>> = Arc::default();
        let p2 = pending.clone();
        std::thread::spawn(move || {
            for l in std::io::BufReader::new(stdout).lines() {
                let Ok(l) = l else { break };
                let Ok(v) = serde_json::from_str::<Value>(&l) else { continue };
                let id = v["id"].as_u64().unwrap();
                let r = if v["ok"].as_bool() == Some(true) {
                    Ok(v["v"].clone())
                } else {
                    Err(v["err"].as_str().unwrap_or("").to_string())
                };
                if let Some(tx) = p2.lock().unwrap().remove(&id) {
                    let _ = tx.send(r);
                }
            }
            p2.lock().unwrap().clear();
        });
        Remote { child: Mutex::new(c), stdin: Mutex::new(stdin), pending, next: AtomicU64::new(1) }
    }
    pub fn op(&self, o: &Value) -> Res {
        let id = self.next.fetch_add(1, Ordering::SeqCst);
        let (tx, rx) = mpsc::channel();
        self.pending.lock().unwrap().insert(id, tx);
        let line = format!("{}\n", json!({"id": id, "o": o}));
        if self.stdin.lock().unwrap().write_all(line.as_bytes()).is_err() {
            return Err("DEAD".into());
        }
        rx.recv().unwrap_or(Err("DEAD".into()))
    }
    pub fn kill(&self) {
        let mut c = self.child.lock().unwrap();
        let _ = c.kill();
        let _ = c.wait();
    }
}
impl Drop for Remote {
    fn drop(&mut self) {
        self.kill();
    }
}

pub fn child_main() {
    let p = Arc::new(Local::new());
    let out = Arc::new(Mutex::new(std::io::stdout()));
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { break };
        let Ok(v) = serde_json::from_str::<Value>(&l) else { continue };
        let (p, out) = (p.clone(), out.clone());
        if v["o"]["op"] == "exit" {
            std::process::exit(0);
        }
        std::thread::spawn(move || {
            let r = match p.op(&v["o"]) {
                Ok(x) => json!({"id": v["id"], "ok": true, "v": x}),
                Err(m) => json!({"id": v["id"], "ok": false, "err": m}),
            };
            let mut o = out.lock().unwrap();
            let _ = writeln!(o, "{r}");
            let _ = o.flush();
        });
    }
    std::process::exit(0);
}
