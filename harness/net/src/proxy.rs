//! A byte-exact TCP proxy between one connecting and one listening party. It knows nothing about
//! the framing: it forwards bytes, counts them and can cut, stall or inject at a byte position.
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Default)]
pub struct Dir {
    pub count: AtomicU64,
    /// absolute byte position at which to cut, -1: none
    pub limit: AtomicI64,
    pub stall: AtomicBool,
}

pub struct Proxy {
    pub dirs: [Arc<Dir>; 2], // 0: connector -> listener, 1: listener -> connector
    conns: Arc<Mutex<Vec<(TcpStream, TcpStream)>>>,
    pub cut: Arc<AtomicBool>,
    pub rst: Arc<AtomicBool>,
    /// forward in pieces of these sizes (cycled), pausing between them; empty: as received
    pieces: Vec<usize>,
    pause: Duration,
}

fn linger0(s: &TcpStream) {
    // RST on close
    unsafe extern "C" {
        fn setsockopt(fd: i32, level: i32, name: i32, val: *const u8, len: u32) -> i32;
    }
    use std::os::fd::AsRawFd;
    let v: [i32; 2] = [1, 0];
    unsafe { setsockopt(s.as_raw_fd(), 1, 13, v.as_ptr() as *const u8, 8) };
}

impl Proxy {
    pub fn start(listen: SocketAddr, target: SocketAddr, pieces: Vec<usize>, pause: Duration) -> Arc<Proxy> {
        let l = TcpListener::bind(listen).expect("proxy bind");
        let mk = || Arc::new(Dir { limit: AtomicI64::new(-1), ..Default::default() });
        let p = Arc::new(Proxy {
            dirs: [mk(), mk()],
            conns: Arc::default(),
            cut: Arc::default(),
            rst: Arc::default(),
            pieces,
            pause,
        });
        let q = p.clone();
        std::thread::spawn(move || {
            for s in l.incoming() {
                let Ok(a) = s else { continue };
                // the real listener may not be up yet: retry for a while
                let mut b = None;
                for _ in 0..200 {
                    match TcpStream::connect(target) {
                        Ok(x) => {
                            b = Some(x);
                            break;
                        }
                        Err(_) => std::thread::sleep(Duration::from_millis(50)),
                    }
                }
                let Some(b) = b else { continue };
                let _ = a.set_nodelay(true);
                let _ = b.set_nodelay(true);
                q.conns.lock().unwrap().push((a.try_clone().unwrap(), b.try_clone().unwrap()));
                let (a2, b2) = (a.try_clone().unwrap(), b.try_clone().unwrap());
                let (q1, q2) = (q.clone(), q.clone());
                std::thread::spawn(move || q1.pump(0, a, b));
                std::thread::spawn(move || q2.pump(1, b2, a2));
            }
        });
        p
    }

    /// Cut everything: FIN towards both ends (already forwarded bytes stay deliverable), or RST.
    pub fn do_cut(&self) {
        if self.cut.swap(true, Ordering::SeqCst) {
            return;
        }
        let g = self.conns.lock().unwrap();
        for (a, b) in g.iter() {
            if self.rst.load(Ordering::SeqCst) {
                linger0(a);
                linger0(b);
                let _ = a.shutdown(Shutdown::Both);
                let _ = b.shutdown(Shutdown::Both);
            } else {
                let _ = a.shutdown(Shutdown::Write);
                let _ = b.shutdown(Shutdown::Write);
            }
        }
        drop(g);
        if self.rst.load(Ordering::SeqCst) {
            self.conns.lock().unwrap().clear();
        }
    }

    fn pump(&self, d: usize, mut from: TcpStream, mut to: TcpStream) {
        let mut buf = vec![0u8; 64 * 1024];
        let dir = &self.dirs[d];
        let mut piece = 0usize;
        loop {
            while dir.stall.load(Ordering::SeqCst) && !self.cut.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(5));
            }
            let n = match from.read(&mut buf) {
                Ok(0) => {
                    let _ = to.shutdown(Shutdown::Write);
                    return;
                }
                Ok(n) => n,
                Err(_) => {
                    let _ = to.shutdown(Shutdown::Both);
                    return;
                }
            };
            while dir.stall.load(Ordering::SeqCst) && !self.cut.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(5));
            }
            if self.cut.load(Ordering::SeqCst) {
                if self.rst.load(Ordering::SeqCst) {
                    return;
                }
                continue; // drain into nothing
            }
            let lim = dir.limit.load(Ordering::SeqCst);
            let c = dir.count.load(Ordering::SeqCst) as i64;
            let m = if lim >= 0 { ((lim - c).max(0) as usize).min(n) } else { n };
            let mut out = &buf[..m];
            while !out.is_empty() {
                let k = if self.pieces.is_empty() { out.len() } else { self.pieces[piece % self.pieces.len()].clamp(1, out.len()) };
                piece += 1;
                if to.write_all(&out[..k]).is_err() {
                    let _ = from.shutdown(Shutdown::Both);
                    return;
                }
                out = &out[k..];
                if !self.pieces.is_empty() {
                    std::thread::sleep(self.pause);
                }
            }
            dir.count.fetch_add(m as u64, Ordering::SeqCst);
            if lim >= 0 && c + m as i64 >= lim {
                self.do_cut();
            }
        }
    }

    pub fn inject(&self, d: usize, bytes: &[u8]) -> bool {
        let g = self.conns.lock().unwrap();
        let mut ok = false;
        if let Some((a, b)) = g.last() {
            let mut s = if d == 0 { b } else { a };
            ok = s.write_all(bytes).is_ok();
        }
        ok
    }
}
