//! D01, D02: inputs, witnesses and encodings.
use ark_ff::{Field, PrimeField};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use co_circom_types::*;
use mpc_core::protocols::rep3::{self, Rep3PrimeFieldShare, Rep3PointShare, Rep3ShareVecType, id::PartyID, network::Rep3NetworkExt};
use mpc_core::protocols::rep3_ring::{Rep3RingShare, ring::{bit::Bit, int_ring::IntRing2k, ring_impl::RingElement}};
use mpc_core::protocols::shamir::{ShamirPrimeFieldShare, ShamirPointShare, network::ShamirNetworkExt};
use mpc_core::protocols::rep3::Rep3UintShare;
use mpc_core::uint::{FieldUint, U256, U320, U384, U512, U1024, UintBackend, RUint};
use mpc_net::Network;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha12Rng;
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use vmpc::*;

type Emit<'a> = &'a mut dyn FnMut(Value);

// ------------------------------------------------------------------------------------------------ D01
fn number(v: &Value) -> Value {
    let neg = if v["neg"] == true { "-" } else { "" };
    let m = v["mag"].as_u64().unwrap();
    json!(match v["hex"].as_u64().unwrap() {
        0 => format!("{neg}{m}"),
        1 => format!("{neg}0x{m:x}"),
        2 => format!("{neg}0x{m:X}"),
        _ => format!("{neg}0x{m:012x}"),
    })
}
fn tree(v: &Value) -> Value {
    match v["t"].as_str().unwrap() {
        "num" => number(v),
        "bool" => json!(v["mag"] == 1),
        "none" => json!("?"),
        "arr" => Value::Array(v["els"].as_array().unwrap().iter().map(tree).collect()),
        _ => panic!(),
    }
}
fn names(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect()
}
fn f_of<F: PrimeField>(x: &F) -> u64 {
    small(x)
}
/// (names, kinds per party, value as reconstructed)
fn rep3_entries<F: PrimeField>(maps: &[Rep3SharedInput<F>]) -> Vec<Value> {
    let keys: std::collections::BTreeSet<String> = maps.iter().flat_map(|m| m.keys().cloned()).collect();
    keys.into_iter()
        .map(|k| {
            let e: Vec<Option<&Rep3InputType<F>>> = maps.iter().map(|m| m.get(&k)).collect();
            let kinds: Vec<&str> = e.iter().map(|x| match x { None => "absent", Some(x) if x.is_public() => "public", _ => "shared" }).collect();
            let pubs: Vec<u64> = e.iter().filter_map(|x| x.and_then(|x| x.as_public())).map(|x| f_of(&x)).collect();
            let sh: Vec<Rep3PrimeFieldShare<F>> = e.iter().filter_map(|x| x.and_then(|x| x.as_shared())).collect();
            let raw: Vec<u64> = sh.iter().flat_map(|s| [f_of(&s.a), f_of(&s.b)]).collect();
            json!({"name": k, "kinds": kinds, "pubs": pubs, "raw": raw})
        })
        .collect()
}
fn shamir_entries<F: PrimeField>(maps: &[ShamirSharedInput<F>]) -> Vec<Value> {
    let keys: std::collections::BTreeSet<String> = maps.iter().flat_map(|m| m.keys().cloned()).collect();
    keys.into_iter()
        .map(|k| {
            let e: Vec<Option<&ShamirInputType<F>>> = maps.iter().map(|m| m.get(&k)).collect();
            let kinds: Vec<&str> = e.iter().map(|x| match x { None => "absent", Some(x) if x.is_public() => "public", _ => "shared" }).collect();
            let pubs: Vec<u64> = e.iter().filter_map(|x| x.and_then(|x| x.as_public())).map(|x| f_of(&x)).collect();
            let raw: Vec<u64> = e.iter().filter_map(|x| x.and_then(|x| x.as_shared())).map(|s| f_of(&s.inner())).collect();
            json!({"name": k, "kinds": kinds, "pubs": pubs, "raw": raw})
        })
        .collect()
}
fn input_map(v: &Value) -> Input {
    v.as_array().unwrap().iter().map(|e| (e["name"].as_str().unwrap().to_string(), tree(&e["val"]))).collect()
}
fn split<F: PrimeField>(j: &Value, emit: Emit) {
    let inp = input_map(&j["input"]);
    let public = names(&j["public"]);
    let n = j["n"].as_u64().unwrap() as usize;
    let t = j["t"].as_u64().unwrap() as usize;
    let r3 = quiet(|| split_input::<F>(inp.clone(), &public));
    let (ok, e) = match &r3 { Ok(Ok(s)) => (true, rep3_entries(s)), _ => (false, vec![]) };
    emit(json!({"ev": "split", "proto": "rep3", "p": j["p"], "n": 3, "t": 0, "input": j["input"], "public": j["public"], "ok": ok, "got": e}));
    let sh = quiet(|| split_input_shamir::<F>(inp, &public, t, n));
    let (ok, e) = match &sh { Ok(Ok(s)) => (true, shamir_entries(s)), _ => (false, vec![]) };
    emit(json!({"ev": "split", "proto": "shamir", "p": j["p"], "n": n, "t": t, "input": j["input"], "public": j["public"], "ok": ok, "got": e}));
}
fn merge<F: PrimeField>(j: &Value, emit: Emit) {
    let public = names(&j["public"]);
    // every provider's map is a list of (flat name, public?, value)
    let ent = |e: &Value| -> (String, Rep3InputType<F>) {
        let v = e["val"].as_u64().unwrap();
        let x = if e["shared"] == true { Rep3InputType::Shared(Rep3PrimeFieldShare::new(F::from(v), F::from(v + 1))) } else { Rep3InputType::Public(F::from(v)) };
        (e["name"].as_str().unwrap().to_string(), x)
    };
    let maps: Vec<Rep3SharedInput<F>> = j["maps"].as_array().unwrap().iter().map(|m| m.as_array().unwrap().iter().map(ent).collect()).collect();
    let r = quiet(|| merge_input_shares(maps, &public));
    let (ok, e) = match r {
        Ok(Ok(m)) => (
            true,
            m.into_iter()
                .map(|(k, v)| match v {
                    Rep3InputType::Public(x) => json!({"name": k, "shared": false, "val": f_of(&x)}),
                    Rep3InputType::Shared(s) if s.b == s.a + F::ONE => json!({"name": k, "shared": true, "val": f_of(&s.a)}),
                    Rep3InputType::Shared(_) => json!({"name": k, "shared": true, "val": 999999}),
                })
                .collect(),
        ),
        _ => (false, vec![]),
    };
    emit(json!({"ev": "merge", "p": j["p"], "public": j["public"], "maps": j["maps"], "ok": ok, "got": e}));
}
fn unbatch<F: PrimeField>(j: &Value, emit: Emit) {
    let rows = |v: &Value| -> Vec<Vec<F>> { v.as_array().unwrap().iter().map(|r| ints(r).into_iter().map(F::from).collect()).collect() };
    let b = BatchedWitness::<F, F> { public_inputs: rows(&j["public"]), witness: rows(&j["witness"]) };
    let r = quiet(|| b.unbatch());
    let o = |v: &Vec<F>| v.iter().map(f_of).collect::<Vec<_>>();
    let (ok, e): (bool, Vec<Value>) = match r {
        Ok(l) => (true, l.iter().map(|w| json!({"public": o(&w.public_inputs), "witness": o(&w.witness), "verify": if w.public_inputs.is_empty() { vec![] } else { o(&w.public_inputs_for_verify()) }})).collect()),
        Err(()) => (false, vec![]),
    };
    emit(json!({"ev": "unbatch", "public": j["public"], "witness": j["witness"], "ok": ok, "got": e}));
}
fn witness<F: PrimeField>(j: &Value, emit: Emit) {
    let vals: Vec<F> = ints(&j["vals"]).into_iter().map(F::from).collect();
    let np = j["np"].as_u64().unwrap() as usize;
    let (n, t) = (j["n"].as_u64().unwrap() as usize, j["t"].as_u64().unwrap() as usize);
    let mut rng = ChaCha12Rng::seed_from_u64(j["seed"].as_u64().unwrap());
    let w = || circom_types::Witness { values: vals.clone() };
    let o = |v: &[F]| v.iter().map(f_of).collect::<Vec<_>>();
    let mut ev = |how: &str, n: usize, t: usize, pubs: Vec<Vec<u64>>, a: Vec<Vec<u64>>, b: Vec<Vec<u64>>| {
        emit(json!({"ev": "witness", "how": how, "p": j["p"], "n": n, "t": t, "vals": j["vals"], "np": np, "pubs": pubs, "a": a, "b": b}));
    };
    let s = Rep3SharedWitness::<F>::share_rep3(w(), np, &mut rng);
    let ab = |v: &[Rep3PrimeFieldShare<F>]| (v.iter().map(|x| f_of(&x.a)).collect::<Vec<_>>(), v.iter().map(|x| f_of(&x.b)).collect::<Vec<_>>());
    ev("rep3", 3, 0, s.iter().map(|x| o(&x.public_inputs)).collect(), s.iter().map(|x| ab(&x.witness).0).collect(), s.iter().map(|x| ab(&x.witness).1).collect());
    // the same through the container
    let c = s.map(CompressedRep3SharedWitness::from).map(SharedWitness::<F, F>::from);
    ev("from", 3, 0, c.iter().map(|x| o(&x.public_inputs)).collect(), c.iter().map(|x| o(&x.witness)).collect(), vec![]);
    for (how, comp) in [("none", Compression::None), ("half", Compression::HalfShares), ("seeded", Compression::SeededShares), ("seededhalf", Compression::SeededHalfShares)] {
        let s = CompressedRep3SharedWitness::<F>::share_rep3(w(), np, &mut rng, comp);
        let pubs: Vec<Vec<u64>> = s.iter().map(|x| o(&x.public_inputs)).collect();
        // the replicated forms, expanded; a round trip through the encoding of a share file on the way
        let s = s.map(|x| bincode::deserialize::<CompressedRep3SharedWitness<F>>(&bincode::serialize(&x).unwrap()).unwrap());
        let mut a = vec![];
        let mut b = vec![];
        for x in &s {
            match &x.witness {
                Rep3ShareVecType::Replicated(v) => {
                    a.push(ab(v).0);
                    b.push(ab(v).1);
                }
                Rep3ShareVecType::SeededReplicated(v) => match quiet(|| v.clone().expand_vec()) {
                    Ok(Ok(v)) => {
                        a.push(ab(&v).0);
                        b.push(ab(&v).1);
                    }
                    _ => {
                        a.push(vec![]);
                        b.push(vec![999999]);
                    }
                },
                Rep3ShareVecType::Additive(_) | Rep3ShareVecType::SeededAdditive(_) => {}
            }
        }
        let add: Vec<SharedWitness<F, F>> = s.into_iter().map(|x| x.into()).collect();
        if !a.is_empty() {
            ev(how, 3, 0, pubs.clone(), a, b);
        }
        ev(&format!("{how}-additive"), 3, 0, add.iter().map(|x| o(&x.public_inputs)).collect(), add.iter().map(|x| o(&x.witness)).collect(), vec![]);
    }
    let s = ShamirSharedWitness::<F>::share_shamir(w(), np, t, n, &mut rng);
    ev("shamir", n, t, s.iter().map(|x| o(&x.public_inputs)).collect(), s.iter().map(|x| x.witness.iter().map(|v| f_of(&v.inner())).collect()).collect(), vec![]);
}

// ------------------------------------------------------------------------------------------------ D02
/// What a decoded value is, independently of any encoding.
trait Rep {
    fn rep(&self) -> Vec<u64>;
}
macro_rules! rep_int { ($($t:ty),*) => {$(impl Rep for $t { fn rep(&self) -> Vec<u64> { vec![*self as u64, (*self as u128 >> 64) as u64 & 0xffff_ffff_ffff] } })*}; }
rep_int!(u8, u16, u32, u64);
fn chunk(l: u64) -> [u64; 3] {
    [l & 0xff_ffff, (l >> 24) & 0xff_ffff, l >> 48]
}
fn of_u128(x: u128) -> Vec<u64> {
    [chunk(x as u64), chunk((x >> 64) as u64)].concat()
}
impl Rep for u128 {
    fn rep(&self) -> Vec<u64> {
        of_u128(*self)
    }
}
impl Rep for Bit {
    fn rep(&self) -> Vec<u64> {
        vec![self.convert() as u64]
    }
}
impl<const N: usize, const L: usize> Rep for RUint<N, L> {
    fn rep(&self) -> Vec<u64> {
        self.as_limbs().iter().flat_map(|l| chunk(*l)).collect()
    }
}
impl<T: IntRing2k> Rep for RingElement<T> {
    fn rep(&self) -> Vec<u64> {
        let u: U1024 = self.0.cast_to_uint();
        u.rep()
    }
}
impl<T: IntRing2k> Rep for Rep3RingShare<T> {
    fn rep(&self) -> Vec<u64> {
        [self.a.rep(), self.b.rep()].concat()
    }
}
fn frep<F: Field>(f: &F) -> Vec<u64> {
    f.to_base_prime_field_elements().flat_map(|x| x.into_bigint().as_ref().iter().flat_map(|l| chunk(*l)).collect::<Vec<_>>()).collect()
}
impl<F: PrimeField> Rep for Rep3PrimeFieldShare<F> {
    fn rep(&self) -> Vec<u64> {
        [frep(&self.a), frep(&self.b)].concat()
    }
}
impl<F: PrimeField> Rep for ShamirPrimeFieldShare<F> {
    fn rep(&self) -> Vec<u64> {
        frep(&self.inner())
    }
}
impl<F: FieldUint> Rep for Rep3UintShare<F> {
    fn rep(&self) -> Vec<u64> {
        self.a.as_limbs().iter().chain(self.b.as_limbs()).flat_map(|l| chunk(*l)).collect()
    }
}
fn prep<C: ark_ec::CurveGroup>(c: &C) -> Vec<u64> {
    use ark_ec::AffineRepr;
    match c.into_affine().xy() {
        None => vec![0],
        Some((x, y)) => [vec![1], frep(&x), frep(&y)].concat(),
    }
}
impl<C: ark_ec::CurveGroup> Rep for Rep3PointShare<C> {
    fn rep(&self) -> Vec<u64> {
        [prep(&self.a), prep(&self.b)].concat()
    }
}
impl<C: ark_ec::CurveGroup> Rep for ShamirPointShare<C> {
    fn rep(&self) -> Vec<u64> {
        prep(&self.inner())
    }
}
impl<T: Rep> Rep for Vec<T> {
    fn rep(&self) -> Vec<u64> {
        let mut v = vec![self.len() as u64];
        for x in self {
            v.extend(x.rep());
        }
        v
    }
}
fn fvec<F: PrimeField>(v: &[F]) -> Vec<u64> {
    let mut r = vec![v.len() as u64];
    for x in v {
        r.extend(frep(x));
    }
    r
}
impl<F: PrimeField> Rep for Rep3InputType<F> {
    fn rep(&self) -> Vec<u64> {
        match self {
            Self::Public(x) => [vec![1], frep(x)].concat(),
            Self::Shared(x) => [vec![2], x.rep()].concat(),
        }
    }
}
impl<F: PrimeField> Rep for ShamirInputType<F> {
    fn rep(&self) -> Vec<u64> {
        match self {
            Self::Public(x) => [vec![1], frep(x)].concat(),
            Self::Shared(x) => [vec![2], x.rep()].concat(),
        }
    }
}
impl<T: Rep> Rep for std::collections::BTreeMap<String, T> {
    fn rep(&self) -> Vec<u64> {
        let mut v = vec![self.len() as u64];
        for (k, x) in self {
            v.push(k.len() as u64);
            v.extend(k.bytes().map(|b| b as u64));
            v.extend(x.rep());
        }
        v
    }
}
impl<F: PrimeField, S: Rep + CanonicalSerialize + CanonicalDeserialize + Clone> Rep for SharedWitness<F, S> {
    fn rep(&self) -> Vec<u64> {
        [fvec(&self.public_inputs), self.witness.rep()].concat()
    }
}
impl<F: PrimeField> Rep for CompressedRep3SharedWitness<F> {
    fn rep(&self) -> Vec<u64> {
        let seed = |s: &rep3::SeededType<Vec<F>, rep3::SeedRng>| match s {
            rep3::SeededType::Shares(v) => [vec![1], fvec(v)].concat(),
            rep3::SeededType::Seed(s, n, _) => [vec![2, *n as u64], s.iter().map(|b| *b as u64).collect()].concat(),
        };
        let w = match &self.witness {
            Rep3ShareVecType::Replicated(v) => [vec![1], v.rep()].concat(),
            Rep3ShareVecType::SeededReplicated(v) => [vec![2], seed(&v.a), seed(&v.b)].concat(),
            Rep3ShareVecType::Additive(v) => [vec![3], fvec(v)].concat(),
            Rep3ShareVecType::SeededAdditive(v) => [vec![4], seed(v)].concat(),
        };
        [fvec(&self.public_inputs), w].concat()
    }
}

fn record<T: Rep>(ty: &str, fmt: &str, fix: i64, x: &T, enc: Result<Vec<u8>, String>, size: i64, dec: impl Fn(&[u8]) -> Result<T, String>, cuts: bool, emit: Emit) {
    let dec = |b: &[u8]| quiet(|| dec(b)).unwrap_or_else(|_| Err("panic".into()));
    let Ok(enc) = enc else {
        emit(json!({"ev": "codec", "ty": ty, "fmt": fmt, "fix": fix, "x": x.rep(), "ok": false, "len": 0, "size": -1, "back": [], "accepted": [], "panics": 0, "enc": ""}));
        return;
    };
    let back = dec(&enc);
    let mut accepted = vec![];
    let mut panics = 0;
    if cuts {
        let ls: Vec<usize> = if enc.len() <= 80 { (0..enc.len()).collect() } else { (0..40).chain((40..enc.len() - 20).step_by(1 + enc.len() / 40)).chain(enc.len() - 20..enc.len()).collect() };
        for l in ls {
            match dec(&enc[..l]) {
                Ok(_) => accepted.push(l),
                Err(e) if e == "panic" => panics += 1,
                Err(_) => {}
            }
        }
    }
    let hex: String = enc.iter().map(|b| format!("{b:02x}")).collect();
    emit(json!({"ev": "codec", "ty": ty, "fmt": fmt, "fix": fix, "x": x.rep(), "ok": back.is_ok(), "len": enc.len(), "size": size,
        "back": back.map(|v| v.rep()).unwrap_or_default(), "accepted": accepted, "panics": panics, "enc": hex}));
}
/// `fix`: -1 if the width may depend on the value, otherwise the number of elements it depends on
fn ark<T: Rep + CanonicalSerialize + CanonicalDeserialize>(ty: &str, fix: i64, x: &T, emit: Emit) {
    for (c, cn) in [(Compress::Yes, "compressed"), (Compress::No, "uncompressed")] {
        for (v, vn) in [(Validate::Yes, "checked"), (Validate::No, "unchecked")] {
            let mut b = vec![];
            let e = x.serialize_with_mode(&mut b, c).map(|_| b).map_err(|e| e.to_string());
            record(ty, &format!("{cn}-{vn}"), fix, x, e, x.serialized_size(c) as i64, |b| T::deserialize_with_mode(b, c, v).map_err(|e| e.to_string()), true, emit);
        }
    }
}
fn sd<T: Rep + Serialize + DeserializeOwned>(ty: &str, fix: i64, x: &T, emit: Emit) {
    record(ty, "bincode", fix, x, bincode::serialize(x).map_err(|e| e.to_string()), -1, |b| bincode::deserialize(b).map_err(|e| e.to_string()), true, emit);
    let j = serde_json::to_vec(x).map_err(|e| e.to_string());
    let cuts = j.as_ref().is_ok_and(|j| j[0] == b'[' || j[0] == b'{');
    record(ty, "json", -1, x, j, -1, |b| serde_json::from_slice(b).map_err(|e| e.to_string()), cuts, emit);
}
fn both<T: Rep + Serialize + DeserializeOwned + CanonicalSerialize + CanonicalDeserialize + Clone>(ty: &str, xs: &[T], emit: Emit) {
    for x in xs {
        ark(ty, 1, x, emit);
        sd(ty, 1, x, emit);
    }
    for n in [0, 1, 2, 5] {
        let v: Vec<T> = xs.iter().cycle().take(n).cloned().collect();
        ark(&format!("vec.{ty}"), n as i64, &v, emit);
        sd(&format!("vec.{ty}"), n as i64, &v, emit);
    }
}
fn onlyark<T: Rep + CanonicalSerialize + CanonicalDeserialize + Clone>(ty: &str, xs: &[T], emit: Emit) {
    for x in xs {
        ark(ty, 1, x, emit);
    }
    for n in [0, 1, 2, 5] {
        let v: Vec<T> = xs.iter().cycle().take(n).cloned().collect();
        ark(&format!("vec.{ty}"), n as i64, &v, emit);
    }
}
fn limbs<const N: usize, const L: usize>(rng: &mut ChaCha12Rng) -> Vec<RUint<N, L>> {
    let m = RUint::<N, L>::mask(N);
    let one = RUint::<N, L>::from(1u64);
    let mut v = vec![m, one, m - one, RUint::<N, L>::from(0u64), m ^ (m >> 1), m >> 1, one << 63, one << 64];
    for _ in 0..4 {
        let k = rng.gen_range(1..=N);
        v.push(RUint::<N, L>::random_bits(rng, k));
    }
    v
}
fn rings<T: IntRing2k>(xs: Vec<T>, ty: &str, emit: Emit)
where
    T: Clone,
{
    let e: Vec<RingElement<T>> = xs.iter().map(|x| RingElement(*x)).collect();
    both(&format!("ring.{ty}"), &e, emit);
    let s: Vec<Rep3RingShare<T>> = xs.iter().zip(xs.iter().rev()).map(|(a, b)| Rep3RingShare::new(*a, *b)).collect();
    both(&format!("ringshare.{ty}"), &s, emit);
}
fn fields<F: PrimeField>(ty: &str, rng: &mut ChaCha12Rng, emit: Emit) {
    let mut xs = vec![F::ZERO, F::ONE, -F::ONE, -F::ONE - F::ONE];
    for _ in 0..6 {
        xs.push(F::rand(rng));
    }
    let r3: Vec<Rep3PrimeFieldShare<F>> = xs.iter().zip(xs.iter().rev()).map(|(a, b)| Rep3PrimeFieldShare::new(*a, *b)).collect();
    both(&format!("rep3.{ty}"), &r3, emit);
    let sh: Vec<ShamirPrimeFieldShare<F>> = xs.iter().map(|a| ShamirPrimeFieldShare::new(*a)).collect();
    onlyark(&format!("shamir.{ty}"), &sh, emit);
    for x in &xs {
        sd(&format!("rep3input.public.{ty}"), 1, &Rep3InputType::Public(*x), emit);
        sd(&format!("shamirinput.public.{ty}"), 1, &ShamirInputType::Public(*x), emit);
    }
    for x in &r3 {
        sd(&format!("rep3input.shared.{ty}"), 1, &Rep3InputType::Shared(*x), emit);
    }
    for x in &sh {
        sd(&format!("shamirinput.shared.{ty}"), 1, &ShamirInputType::Shared(*x), emit);
    }
    for n in [0usize, 1, 4] {
        let m: Rep3SharedInput<F> = (0..n).map(|i| (format!("x[{i}]"), if i % 2 == 0 { Rep3InputType::Shared(r3[i]) } else { Rep3InputType::Public(xs[i]) })).collect();
        sd(&format!("rep3map.{ty}"), -1, &m, emit);
        let m: ShamirSharedInput<F> = (0..n).map(|i| (format!("y{i}"), if i % 2 == 1 { ShamirInputType::Shared(sh[i]) } else { ShamirInputType::Public(xs[i]) })).collect();
        sd(&format!("shamirmap.{ty}"), -1, &m, emit);
        for np in [0usize, 1, 3] {
            let k = (100 * n + np) as i64;
            for off in [0, 3] {
                sd(&format!("rep3witness.{ty}"), k, &SharedWitness { public_inputs: xs[off..off + np].to_vec(), witness: r3[off..off + n].to_vec() }, emit);
                sd(&format!("shamirwitness.{ty}"), k, &SharedWitness { public_inputs: xs[off..off + np].to_vec(), witness: sh[off..off + n].to_vec() }, emit);
            }
            for (c, comp) in [Compression::None, Compression::HalfShares, Compression::SeededShares, Compression::SeededHalfShares].into_iter().enumerate() {
                let w = circom_types::Witness { values: xs[..np + n].to_vec() };
                for (party, s) in CompressedRep3SharedWitness::share_rep3(w, np, rng, comp).into_iter().enumerate() {
                    sd(&format!("compressed{c}.{party}.{ty}"), k, &s, emit);
                }
            }
        }
    }
}
fn points<C: ark_ec::CurveGroup>(ty: &str, rng: &mut ChaCha12Rng, emit: Emit) {
    let g = C::generator();
    let mut xs = vec![C::zero(), g, -g, g + g];
    for _ in 0..3 {
        xs.push(C::rand(rng));
    }
    // a representation that is not normalized
    xs.push(xs[4] + xs[5] + xs[6]);
    let a: Vec<Rep3PointShare<C>> = xs.iter().zip(xs.iter().rev()).map(|(a, b)| Rep3PointShare::new(*a, *b)).collect();
    onlyark(&format!("rep3point.{ty}"), &a, emit);
    let b: Vec<ShamirPointShare<C>> = xs.iter().map(|a| ShamirPointShare::new(*a)).collect();
    onlyark(&format!("shamirpoint.{ty}"), &b, emit);
}
fn uintshares<F: FieldUint>(ty: &str, xs: Vec<F::Uint>, emit: Emit) {
    let s: Vec<Rep3UintShare<F>> = xs.iter().zip(xs.iter().rev()).map(|(a, b)| Rep3UintShare::new(*a, *b)).collect();
    onlyark(&format!("uintshare.{ty}"), &s, emit);
}
fn codec(j: &Value, emit: Emit) {
    let mut rng = ChaCha12Rng::seed_from_u64(j["seed"].as_u64().unwrap());
    let r = &mut rng;
    macro_rules! ints { ($t:ty, $n:expr) => {{
        let mut v: Vec<$t> = vec![0, 1, <$t>::MAX, <$t>::MAX - 1, <$t>::MAX / 2, <$t>::MAX / 2 + 1];
        if <$t>::BITS == 8 { v = (0..=255u8).map(|x| x as $t).collect(); }
        for _ in 0..6 { v.push(r.r#gen::<$t>() >> r.gen_range(0..<$t>::BITS)); }
        rings(v, $n, emit)
    }}; }
    macro_rules! wide { ($t:ty, $n:literal, $l:literal, $name:expr) => {{
        let v = limbs::<$n, $l>(r);
        both(&format!("uint.{}", $name), &v, emit);
        rings(v, $name, emit);
    }}; }
    match j["what"].as_str().unwrap() {
        "bit" => {
            rings(vec![Bit::new(true), Bit::new(false)], "bit", emit);
            for b in [Bit::new(true), Bit::new(false)] {
                sd("bit", 1, &b, emit);
            }
        }
        "u8" => ints!(u8, "u8"),
        "u16" => ints!(u16, "u16"),
        "u32" => ints!(u32, "u32"),
        "u64" => ints!(u64, "u64"),
        "u128" => ints!(u128, "u128"),
        "u256" => wide!(U256, 256, 4, "u256"),
        "u320" => wide!(U320, 320, 5, "u320"),
        "u384" => wide!(U384, 384, 6, "u384"),
        "u512" => wide!(U512, 512, 8, "u512"),
        "u1024" => wide!(U1024, 1024, 16, "u1024"),
        "bn254" => fields::<ark_bn254::Fr>("bn254", r, emit),
        "bn254fq" => fields::<ark_bn254::Fq>("bn254fq", r, emit),
        "f257" => fields::<F257>("f257", r, emit),
        "f11" => fields::<F11>("f11", r, emit),
        "points" => {
            points::<ark_bn254::G1Projective>("g1", r, emit);
            points::<ark_bn254::G2Projective>("g2", r, emit);
            points::<G257>("toy", r, emit);
        }
        "uintshare" => {
            uintshares::<ark_bn254::Fr>("bn254", limbs::<256, 4>(r), emit);
            uintshares::<ark_bls12_381::Fr>("bls", limbs::<320, 5>(r), emit);
        }
        _ => panic!(),
    }
}

/// Frames of every sending function of the two network layers, received by every receiving one.
fn frames<T: Rep + CanonicalSerialize + CanonicalDeserialize + Clone + Send + Sync + 'static>(ty: &str, xs: Vec<T>, emit: Emit) {
    let reps = |v: &[T]| v.iter().map(|x| x.rep()).collect::<Vec<_>>();
    // what each party sends: different values
    let vals: Vec<Vec<T>> = (0..3).map(|i| xs.iter().cycle().skip(i * 3 + 1).take(4).cloned().collect()).collect();
    let fns: Vec<(&str, &str, usize)> = vec![
        ("rep3", "reshare", 1), ("rep3", "reshare_many", 0), ("rep3", "reshare_many", 4), ("rep3", "broadcast", 1), ("rep3", "broadcast_many", 3), ("rep3", "broadcast_many", 0),
        ("rep3", "next", 1), ("rep3", "prev", 1), ("rep3", "next_many", 2), ("rep3", "prev_many", 3), ("rep3", "to", 1), ("rep3", "sendrecv", 1), ("rep3", "sendrecv_many", 2), ("rep3", "both_many", 2),
        ("shamir", "to", 1), ("shamir", "many", 3), ("shamir", "many", 0), ("shamir", "broadcast", 1), ("shamir", "broadcast_next", 1), ("shamir", "sendrecv", 1), ("shamir", "sendrecv_many", 4),
    ];
    for (proto, f, n) in fns {
        let nets = RecNet::mesh(3, true);
        let res = parties(nets, |i, net| -> eyre::Result<(Vec<(usize, Vec<T>)>, Vec<usize>)> {
            let mine = vals[i][..n].to_vec();
            let (nx, pv) = ((i + 1) % 3, (i + 2) % 3);
            let id = |x: usize| PartyID::try_from(x).unwrap();
            let got: Vec<(usize, Vec<T>)> = match (proto, f) {
                ("rep3", "reshare") => vec![(pv, vec![net.reshare(mine[0].clone())?])],
                ("rep3", "reshare_many") => vec![(pv, net.reshare_many(&mine)?)],
                ("rep3", "broadcast") => {
                    let (p, n) = Rep3NetworkExt::broadcast(&net, mine[0].clone())?;
                    vec![(pv, vec![p]), (nx, vec![n])]
                }
                ("rep3", "broadcast_many") => {
                    let (p, n) = net.broadcast_many(&mine)?;
                    vec![(pv, p), (nx, n)]
                }
                ("rep3", "next") => {
                    net.send_next(mine[0].clone())?;
                    vec![(pv, vec![net.recv_prev()?])]
                }
                ("rep3", "prev") => {
                    net.send_prev(mine[0].clone())?;
                    vec![(nx, vec![net.recv_next()?])]
                }
                ("rep3", "next_many") => {
                    net.send_next_many(&mine)?;
                    vec![(pv, net.recv_prev_many()?)]
                }
                ("rep3", "prev_many") => {
                    net.send_prev_many(&mine)?;
                    vec![(nx, net.recv_next_many()?)]
                }
                ("rep3", "to") => {
                    Rep3NetworkExt::send_to(&net, id(nx), mine[0].clone())?;
                    vec![(pv, vec![Rep3NetworkExt::recv_from(&net, id(pv))?])]
                }
                ("rep3", "sendrecv") => vec![(nx, vec![Rep3NetworkExt::send_and_recv(&net, id(pv), mine[0].clone(), id(nx))?])],
                ("rep3", "sendrecv_many") => vec![(nx, Rep3NetworkExt::send_and_recv_many(&net, id(pv), &mine, id(nx))?)],
                ("rep3", "both_many") => {
                    net.send_both_many(&mine)?;
                    let n = Rep3NetworkExt::recv_many(&net, id(nx))?;
                    let p = Rep3NetworkExt::recv_many(&net, id(pv))?;
                    vec![(nx, n), (pv, p)]
                }
                ("shamir", "to") => {
                    ShamirNetworkExt::send_to(&net, nx, mine[0].clone())?;
                    vec![(pv, vec![ShamirNetworkExt::recv_from(&net, pv)?])]
                }
                ("shamir", "many") => {
                    ShamirNetworkExt::send_many(&net, nx, &mine)?;
                    vec![(pv, ShamirNetworkExt::recv_many(&net, pv)?)]
                }
                ("shamir", "broadcast") => {
                    let v = ShamirNetworkExt::broadcast(&net, 3, mine[0].clone())?;
                    v.into_iter().enumerate().map(|(j, x)| (j, vec![x])).collect()
                }
                ("shamir", "broadcast_next") => {
                    let v = ShamirNetworkExt::broadcast_next(&net, 3, 3, mine[0].clone())?;
                    v.into_iter().enumerate().map(|(j, x)| ((i + 3 - j) % 3, vec![x])).collect()
                }
                ("shamir", "sendrecv") => vec![(pv, vec![ShamirNetworkExt::send_and_recv(&net, nx, mine[0].clone(), pv)?])],
                ("shamir", "sendrecv_many") => vec![(pv, ShamirNetworkExt::send_and_recv_many(&net, nx, &mine, pv)?)],
                _ => unreachable!(),
            };
            let lens = net.log.lock().unwrap().sent.iter().map(|x| x.1).collect();
            Ok((got, lens))
        });
        for (i, r) in res.iter().enumerate() {
            match r {
                Ok((got, lens)) => {
                    for (from, v) in got {
                        emit(json!({"ev": "frame", "ty": ty, "f": format!("{proto}.{f}"), "n": n, "ok": true, "sent": reps(&vals[*from][..n]), "got": reps(v), "lens": lens, "me": i}));
                    }
                }
                Err(e) => emit(json!({"ev": "frame", "ty": ty, "f": format!("{proto}.{f}"), "n": n, "ok": false, "sent": [], "got": [], "lens": [], "me": i, "err": e})),
            }
        }
    }
    // wrong frames: too short, or another number of values than asked for
    let frame = |n: usize| -> Vec<u8> {
        let nets = RecNet::mesh(3, false);
        ShamirNetworkExt::send_many(&nets[0], 1, &vals[0][..n]).unwrap();
        nets[1].recv(0).unwrap().to_vec()
    };
    let full = frame(2);
    for l in 0..full.len() {
        bad::<T>(ty, "short", full[..l].to_vec(), true, emit);
    }
    for n in [0usize, 2, 3] {
        bad::<T>(ty, "count", frame(n), false, emit);
    }
}
fn bad<T: Rep + CanonicalSerialize + CanonicalDeserialize + Clone + Send + Sync + 'static>(ty: &str, what: &str, data: Vec<u8>, many: bool, emit: Emit) {
    let l = data.len();
    let mut acc = vec![];
    let fs = if many { vec!["rep3.recv_many", "shamir.recv_many", "rep3.recv_from", "shamir.recv_from"] } else { vec!["rep3.recv_from", "shamir.recv_from", "rep3.recv_prev"] };
    for f in fs {
        let nets = RecNet::mesh(3, false);
        let mut it = nets.into_iter();
        let (a, b, _c) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
        a.send(1, data.clone().into()).unwrap();
        let id0 = PartyID::try_from(0usize).unwrap();
        let r: Result<bool, ()> = quiet(|| match f {
            "rep3.recv_many" => Rep3NetworkExt::recv_many::<T>(&b, id0).is_ok(),
            "shamir.recv_many" => ShamirNetworkExt::recv_many::<T>(&b, 0).is_ok(),
            "rep3.recv_from" => Rep3NetworkExt::recv_from::<T>(&b, id0).is_ok(),
            "shamir.recv_from" => ShamirNetworkExt::recv_from::<T>(&b, 0).is_ok(),
            "rep3.recv_prev" => b.recv_prev::<T>().is_ok(),
            _ => Rep3NetworkExt::recv_from::<T>(&b, id0).is_ok(),
        });
        match r {
            Ok(true) => acc.push(format!("{f} accepts")),
            Err(()) => acc.push(format!("{f} panics")),
            _ => {}
        }
    }
    emit(json!({"ev": "badframe", "ty": ty, "what": what, "len": l, "accepted": acc}));
}
fn net(j: &Value, emit: Emit) {
    let mut rng = ChaCha12Rng::seed_from_u64(j["seed"].as_u64().unwrap());
    let r = &mut rng;
    match j["what"].as_str().unwrap() {
        "u1024" => frames("ring.u1024", limbs::<1024, 16>(r).into_iter().map(RingElement).collect(), emit),
        "u64" => frames("ring.u64", (0..9).map(|_| RingElement(r.r#gen::<u64>())).collect(), emit),
        "bit" => frames("ring.bit", [true, false, false, true, true, true, false].map(|b| RingElement(Bit::new(b))).to_vec(), emit),
        "bn254" => frames("rep3.bn254", (0..9).map(|_| Rep3PrimeFieldShare::new(r.r#gen::<ark_bn254::Fr>(), r.r#gen())).collect(), emit),
        "shamir" => frames("shamir.bn254", (0..9).map(|_| ShamirPrimeFieldShare::new(r.r#gen::<ark_bn254::Fr>())).collect(), emit),
        "point" => frames("shamirpoint.g1", (0..9).map(|i| ShamirPointShare::new(if i == 3 { Default::default() } else { r.r#gen::<ark_bn254::G1Projective>() })).collect(), emit),
        "uint" => frames("uint.u256", limbs::<256, 4>(r), emit),
        _ => panic!(),
    }
}

fn main() {
    main_loop(|j, emit| {
        let p = j["p"].as_u64().unwrap_or(0);
        macro_rules! fp { ($f:ident) => { match p { 11 => $f::<F11>(j, emit), 257 => $f::<F257>(j, emit), 12289 => $f::<F12289>(j, emit), 40961 => $f::<F40961>(j, emit), _ => panic!() } }; }
        match j["kind"].as_str().unwrap() {
            "split" => fp!(split),
            "merge" => fp!(merge),
            "unbatch" => fp!(unbatch),
            "witness" => fp!(witness),
            "codec" => codec(j, emit),
            "net" => net(j, emit),
            _ => panic!(),
        }
    });
}
