//! Shared parts of the protocol harnesses: small fields and a small curve (so that the specification can do the
//! same arithmetic), a recording in-memory network, job input and record output.
use ark_ec::{AffineRepr, CurveConfig, CurveGroup, short_weierstrass::{Affine, Projective, SWCurveConfig}};
use ark_ff::{AdditiveGroup, Field, MontConfig, MontFp, PrimeField, fields::{Fp64, MontBackend}};
use crossbeam_channel::{Receiver, Sender, unbounded};
use mpc_net::{ConnectionStats, Network, bytes::Bytes};
use std::collections::BTreeMap;
use std::sync::{Mutex, OnceLock};
use std::time::Duration;

macro_rules! toy {
    ($cfg:ident, $ty:ident, $m:literal, $g:literal) => {
        #[derive(MontConfig)]
        #[modulus = $m]
        #[generator = $g]
        pub struct $cfg;
        pub type $ty = Fp64<MontBackend<$cfg, 1>>;
    };
}
toy!(C5, F5, "5", "2");
toy!(C7, F7, "7", "3");
toy!(C11, F11, "11", "2");
toy!(C13, F13, "13", "2");
toy!(C257, F257, "257", "3");
toy!(C12289, F12289, "12289", "11");
toy!(C40961, F40961, "40961", "3");
toy!(C227, F227, "227", "2");
toy!(C40739, F40739, "40739", "2");

pub fn small<F: PrimeField>(x: &F) -> u64 {
    x.into_bigint().as_ref()[0]
}

macro_rules! toycurve {
    ($cfg:ident, $base:ty, $scalar:ty, $a:literal, $b:literal, $x:literal, $y:literal) => {
        #[derive(Clone, Default, PartialEq, Eq)]
        pub struct $cfg;
        impl CurveConfig for $cfg {
            type BaseField = $base;
            type ScalarField = $scalar;
            const COFACTOR: &'static [u64] = &[1];
            const COFACTOR_INV: $scalar = <$scalar as Field>::ONE;
        }
        impl SWCurveConfig for $cfg {
            type ZeroFlag = bool;
            const COEFF_A: $base = MontFp!($a);
            const COEFF_B: $base = MontFp!($b);
            const GENERATOR: Affine<Self> = Affine::new_unchecked(MontFp!($x), MontFp!($y));
        }
        impl Dlog for Projective<$cfg> {
            fn dlog(&self) -> u64 {
                static T: OnceLock<std::collections::HashMap<Affine<$cfg>, u64>> = OnceLock::new();
                let t = T.get_or_init(|| {
                    let mut m = std::collections::HashMap::new();
                    let g = Affine::<$cfg>::generator();
                    let mut p = Projective::<$cfg>::ZERO;
                    let mut i = 0u64;
                    loop {
                        let a = p.into_affine();
                        if i > 0 && a.is_zero() {
                            break;
                        }
                        m.insert(a, i);
                        p += g;
                        i += 1;
                    }
                    m
                });
                // a point that is not on the curve shows as a number outside of the group
                *t.get(&self.into_affine()).unwrap_or(&1_000_000)
            }
        }
    };
}
/// A group whose discrete logarithms are known: the specification computes with them.
pub trait Dlog: CurveGroup {
    fn dlog(&self) -> u64;
    fn of(k: u64) -> Self {
        Self::generator() * Self::ScalarField::from(k)
    }
}
toycurve!(E5, F7, F5, "1", "1", "0", "1");
toycurve!(E11, F7, F11, "1", "6", "1", "1");
toycurve!(E257, F227, F257, "16", "37", "2", "109");
toycurve!(E40961, F40739, F40961, "32838", "565", "1", "34306");
pub type GBig = Projective<E40961>;
pub type G5 = Projective<E5>;
pub type G11 = Projective<E11>;
pub type G257 = Projective<E257>;

/// Everything a party received, in order: (from, bytes); and what it sent: (to, length).
#[derive(Default)]
pub struct Log {
    pub received: Vec<(usize, Bytes)>,
    pub sent: Vec<(usize, usize)>,
}

/// In-memory network with unbounded channels, a receive timeout and a record of the traffic.
pub struct RecNet {
    id: usize,
    tx: Vec<Option<Sender<Bytes>>>,
    rx: Vec<Option<Receiver<Bytes>>>,
    timeout: Duration,
    pub log: Mutex<Log>,
    pub keep: bool,
    pub retouch: Mutex<Option<Retouch>>,
}

/// A sent message to be replaced: the `nth` one to party `to` after arming.
pub struct Retouch {
    pub to: usize,
    pub nth: usize,
    pub armed: bool,
    pub seen: usize,
    /// its position among all messages to that party, and whether it was replaced
    pub hit: Option<usize>,
    #[allow(clippy::type_complexity)]
    pub f: Box<dyn Fn(&[u8]) -> Option<Vec<u8>> + Send>,
}

/// The bytes with `delta` elements more (copies of the last one, or zeros) or fewer, if they are a counted vector of `T`.
pub fn recount<T: ark_serialize::CanonicalSerialize + ark_serialize::CanonicalDeserialize + Clone>(b: &[u8], delta: i64, zero: T) -> Option<Vec<u8>> {
    use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
    let count = u64::from_le_bytes(b.get(..8)?.try_into().unwrap()) as usize;
    if count > b.len() || count * zero.uncompressed_size() + 8 != b.len() {
        return None;
    }
    let mut r = b;
    let mut v = Vec::<T>::deserialize_uncompressed_unchecked(&mut r).ok()?;
    if !r.is_empty() || v.uncompressed_size() != b.len() {
        return None;
    }
    let n = v.len() as i64 + delta;
    if n < 0 || delta == 0 {
        return None;
    }
    let last = v.last().cloned().unwrap_or(zero);
    v.resize(n as usize, last);
    let mut out = vec![];
    v.serialize_uncompressed(&mut out).ok()?;
    Some(out)
}

impl RecNet {
    pub fn arm(&self) {
        if let Some(r) = self.retouch.lock().unwrap().as_mut() {
            r.armed = true;
        }
    }
    pub fn quick(&mut self) {
        self.timeout = Duration::from_millis(700);
    }
    /// Sets up the replacement described by the job: {"from", "to", "nth"} and the given function
    pub fn alter(nets: &mut [RecNet], a: &serde_json::Value, f: Box<dyn Fn(&[u8]) -> Option<Vec<u8>> + Send>) {
        let g = |k: &str| a[k].as_u64().unwrap() as usize;
        nets.iter_mut().for_each(|n| n.quick());
        *nets[g("from")].retouch.lock().unwrap() = Some(Retouch { to: g("to"), nth: g("nth"), armed: false, seen: 0, hit: None, f });
    }
    /// Whether the replacement took place, and whether its receiver read it
    pub fn altered(nets: &[RecNet], a: &serde_json::Value) -> (bool, bool) {
        let (from, to) = (a["from"].as_u64().unwrap() as usize, a["to"].as_u64().unwrap() as usize);
        match nets[from].retouch.lock().unwrap().as_ref().and_then(|r| r.hit) {
            None => (false, false),
            Some(k) => (true, nets[to].log.lock().unwrap().received.iter().filter(|x| x.0 == from).count() > k),
        }
    }
    pub fn mesh(n: usize, keep: bool) -> Vec<RecNet> {
        let mut tx: Vec<Vec<Option<Sender<Bytes>>>> = (0..n).map(|_| (0..n).map(|_| None).collect()).collect();
        let mut rx: Vec<Vec<Option<Receiver<Bytes>>>> = (0..n).map(|_| (0..n).map(|_| None).collect()).collect();
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    let (s, r) = unbounded();
                    tx[i][j] = Some(s);
                    rx[j][i] = Some(r);
                }
            }
        }
        tx.into_iter()
            .zip(rx)
            .enumerate()
            .map(|(id, (tx, rx))| RecNet { id, tx, rx, timeout: Duration::from_secs(20), log: Mutex::default(), keep, retouch: Mutex::new(None) })
            .collect()
    }
    pub fn sent_msgs(&self) -> usize {
        self.log.lock().unwrap().sent.len()
    }
    pub fn recv_msgs(&self) -> usize {
        self.log.lock().unwrap().received.len()
    }
    /// Messages that were sent to this party and never read.
    pub fn unread(&self) -> usize {
        self.rx.iter().flatten().map(|r| r.len()).sum()
    }
}

impl Network for RecNet {
    fn id(&self) -> usize {
        self.id
    }
    fn send(&self, to: usize, data: Bytes) -> eyre::Result<()> {
        let mut data = data;
        let before = {
            let mut l = self.log.lock().unwrap();
            l.sent.push((to, data.len()));
            l.sent.iter().filter(|x| x.0 == to).count() - 1
        };
        if let Some(r) = self.retouch.lock().unwrap().as_mut()
            && r.armed
            && r.to == to
        {
            if r.seen == r.nth
                && let Some(d) = (r.f)(&data)
            {
                data = d.into();
                r.hit = Some(before);
            }
            r.seen += 1;
        }
        let c = self.tx.get(to).and_then(|c| c.as_ref()).ok_or_else(|| eyre::eyre!("no channel to {to}"))?;
        c.send(data)?;
        Ok(())
    }
    fn recv(&self, from: usize) -> eyre::Result<Bytes> {
        let c = self.rx.get(from).and_then(|c| c.as_ref()).ok_or_else(|| eyre::eyre!("no channel from {from}"))?;
        let d = c.recv_timeout(self.timeout)?;
        self.log.lock().unwrap().received.push((from, if self.keep { d.clone() } else { Bytes::new() }));
        Ok(d)
    }
    fn get_connection_stats(&self) -> ConnectionStats {
        ConnectionStats::new(self.id, BTreeMap::new())
    }
}

/// What a thread draws from the operating system: left alone, or (to study a view given the coins of a party) a fixed
/// sequence. Threads that the code under test starts by itself keep drawing real randomness.
pub mod coins {
    use std::cell::Cell;
    thread_local! { static FIXED: Cell<u64> = const { Cell::new(0) }; }
    pub fn fix(seed: u64) {
        FIXED.with(|c| c.set(seed | 1));
    }
    #[cfg(all(target_arch = "x86_64", target_os = "linux"))]
    mod hook {
        use std::ffi::c_long;
        const GETRANDOM: c_long = 318;
        /// In place of the C library's function of this name, which is how the random number crates ask the system.
        #[unsafe(no_mangle)]
        unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
            if n == GETRANDOM {
                let s = super::FIXED.with(|c| c.get());
                if s != 0 {
                    let mut s = s;
                    for k in 0..b as usize {
                        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        unsafe { *(a as *mut u8).add(k) = (s >> 40) as u8 };
                    }
                    super::FIXED.with(|c| c.set(s | 1));
                    return b;
                }
            }
            let r: c_long;
            unsafe {
                std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
                    lateout("rcx") _, lateout("r11") _);
                if r < 0 && r > -4096 {
                    unsafe extern "C" {
                        fn __errno_location() -> *mut i32;
                    }
                    *__errno_location() = -r as i32;
                    return -1;
                }
            }
            r
        }
    }
}

/// Runs `f` once per party on its own thread; a panic of a party becomes an error.
pub fn parties<T: Send, X: Send>(xs: Vec<X>, f: impl Fn(usize, X) -> eyre::Result<T> + Sync) -> Vec<Result<T, String>> {
    std::thread::scope(|s| {
        let hs: Vec<_> = xs
            .into_iter()
            .enumerate()
            .map(|(i, x)| {
                let f = &f;
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || f(i, x)).unwrap()
            })
            .collect();
        hs.into_iter()
            .map(|h| match h.join() {
                Ok(Ok(v)) => Ok(v),
                Ok(Err(e)) => Err(format!("{e:#}")),
                Err(p) => Err(format!(
                    "panic: {}",
                    p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
                )),
            })
            .collect()
    })
}

/// Reads jobs (one JSON value per line) from the file in argv[1], writes records to the file in argv[2].
pub fn main_loop(f: impl Fn(&serde_json::Value, &mut dyn FnMut(serde_json::Value)) + Sync) {
    use std::io::Write;
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let jobs: Vec<serde_json::Value> =
        std::fs::read_to_string(&a[1]).unwrap().lines().filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(l).unwrap()).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let results: Vec<Mutex<Vec<serde_json::Value>>> = jobs.iter().map(|_| Mutex::default()).collect();
    let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(jobs.len().max(1));
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| {
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= jobs.len() {
                        break;
                    }
                    let mut out = Vec::new();
                    f(&jobs[i], &mut |v| out.push(v));
                    *results[i].lock().unwrap() = out;
                }
            });
        }
    });
    let mut w = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for (i, r) in results.into_iter().enumerate() {
        for mut v in r.into_inner().unwrap() {
            v["job"] = i.into();
            writeln!(w, "{v}").unwrap();
        }
    }
    w.flush().unwrap();
}

pub fn ints(v: &serde_json::Value) -> Vec<u64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default()
}

pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ())
}
