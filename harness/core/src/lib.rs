//! Shared pieces of the conformance harness: evaluation of the specification's symbolic terms over
//! concrete secp256k1 keys (independent of the code under test), concretization of abstract scripts
//! and transactions, seeded randomness, and result reporting.
use bitcoin::hashes::{hash160, sha256, Hash, HashEngine};
use bitcoin::secp256k1::{All, PublicKey, Scalar, Secp256k1, SecretKey};
use bitcoin::{
    absolute::LockTime, transaction::Version, Amount, OutPoint, ScriptBuf, Sequence, Transaction,
    TxIn, TxOut, Txid, Witness,
};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;

pub use bitcoin;
pub use serde_json;
pub mod universe;

pub const NUMS: &str = "50929b74c1a04954b78b4b6035e97a5e078a5a0f28ec96d547bfee9ace803ac0";

// ---------------------------------------------------------------- randomness
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, salt: &str) -> Self {
        let h = sha256::Hash::hash(format!("{seed}/{salt}").as_bytes()).to_byte_array();
        Rng(u64::from_le_bytes(h[..8].try_into().unwrap()))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn bytes32(&mut self) -> [u8; 32] {
        let mut o = [0u8; 32];
        for c in o.chunks_mut(8) {
            c.copy_from_slice(&self.next().to_le_bytes());
        }
        o
    }
}

// ---------------------------------------------------------------- s-expressions
#[derive(Debug, Clone)]
#[allow(clippy::large_enum_variant)]
pub enum Sx {
    A(String),
    L(Vec<Sx>, String),
}
impl Sx {
    pub fn text(&self) -> &str {
        match self {
            Sx::A(s) => s,
            Sx::L(_, s) => s,
        }
    }
}
pub fn parse_sx(s: &str) -> Sx {
    fn go(b: &[u8], i: &mut usize, src: &str) -> Sx {
        while b[*i] == b' ' {
            *i += 1;
        }
        if b[*i] == b'(' {
            let start = *i;
            *i += 1;
            let mut v = Vec::new();
            loop {
                while b[*i] == b' ' {
                    *i += 1;
                }
                if b[*i] == b')' {
                    *i += 1;
                    break;
                }
                v.push(go(b, i, src));
            }
            Sx::L(v, src[start..*i].to_string())
        } else {
            let start = *i;
            while *i < b.len() && b[*i] != b' ' && b[*i] != b')' && b[*i] != b'(' {
                *i += 1;
            }
            Sx::A(src[start..*i].to_string())
        }
    }
    let mut i = 0;
    go(s.as_bytes(), &mut i, s)
}

// ---------------------------------------------------------------- terms
/// A scalar modulo the group order; `None` is zero.
pub type Sc = Option<SecretKey>;

pub fn tagged_hash(tag: &str, data: &[u8]) -> [u8; 32] {
    let t = sha256::Hash::hash(tag.as_bytes());
    let mut e = sha256::Hash::engine();
    e.input(t.as_ref());
    e.input(t.as_ref());
    e.input(data);
    sha256::Hash::from_engine(e).to_byte_array()
}

pub struct Env {
    pub seed: String,
    pub secp: Secp256k1<All>,
    atoms: RefCell<HashMap<String, SecretKey>>,
    pubs: RefCell<HashMap<[u8; 32], PublicKey>>,
    pub ops: RefCell<HashMap<String, [u8; 36]>>,
    pub blobs: RefCell<HashMap<String, Vec<u8>>>,
}

pub fn sc_add(a: Sc, b: Sc) -> Sc {
    match (a, b) {
        (None, x) | (x, None) => x,
        (Some(a), Some(b)) => a.add_tweak(&Scalar::from(b)).ok(),
    }
}
pub fn sc_neg(a: Sc) -> Sc {
    a.map(|x| x.negate())
}
pub fn sc_mul(a: Sc, b: Sc) -> Sc {
    match (a, b) {
        (Some(a), Some(b)) => Some(a.mul_tweak(&Scalar::from(b)).expect("nonzero")),
        _ => None,
    }
}
pub fn sc_int(n: i64) -> Sc {
    if n == 0 {
        return None;
    }
    let mut b = [0u8; 32];
    b[24..].copy_from_slice(&n.unsigned_abs().to_be_bytes());
    let s = SecretKey::from_slice(&b).unwrap();
    Some(if n < 0 { s.negate() } else { s })
}

impl Env {
    pub fn new(seed: u64, salt: &str) -> Self {
        Env {
            seed: format!("{seed}/{salt}"),
            secp: Secp256k1::new(),
            atoms: Default::default(),
            pubs: Default::default(),
            ops: Default::default(),
            blobs: Default::default(),
        }
    }
    pub fn is_even(&self, s: &SecretKey) -> bool {
        self.point(s).serialize()[0] == 2
    }
    pub fn point(&self, s: &SecretKey) -> PublicKey {
        *self
            .pubs
            .borrow_mut()
            .entry(s.secret_bytes())
            .or_insert_with(|| s.public_key(&self.secp))
    }
    /// Value of a base atom: its point has an even Y coordinate. `sm_<n>` is the small integer n
    /// (up to sign), everything else pseudo-random.
    pub fn base(&self, name: &str) -> SecretKey {
        if let Some(s) = self.atoms.borrow().get(name) {
            return *s;
        }
        let mut s = if let Some(n) = name.strip_prefix("sm_") {
            sc_int(n.parse().unwrap()).unwrap()
        } else {
            let h = sha256::Hash::hash(format!("{}/{}", self.seed, name).as_bytes());
            SecretKey::from_slice(h.as_ref()).unwrap()
        };
        if !self.is_even(&s) {
            s = s.negate();
        }
        self.atoms.borrow_mut().insert(name.to_string(), s);
        s
    }
    /// Fixes the value of a base atom; its point must have an even Y coordinate.
    pub fn bind(&self, name: &str, s: SecretKey) {
        assert!(self.is_even(&s));
        self.atoms.borrow_mut().insert(name.to_string(), s);
    }
    pub fn blob(&self, name: &str, n: usize) -> Vec<u8> {
        if let Some(b) = self.blobs.borrow().get(name) {
            return b.clone();
        }
        let mut out = Vec::new();
        let mut i = 0;
        while out.len() < n {
            out.extend_from_slice(
                sha256::Hash::hash(format!("{}/blob/{}/{}", self.seed, name, i).as_bytes())
                    .as_ref(),
            );
            i += 1;
        }
        out.truncate(n);
        out
    }
    fn atom(&self, a: &Sx) -> Sc {
        match a {
            Sx::A(n) => Some(self.base(n)),
            Sx::L(v, text) => {
                if let Some(s) = self.atoms.borrow().get(text) {
                    return Some(*s);
                }
                let s = match v[0].text() {
                    "hash" => {
                        let mut data = Vec::new();
                        for arg in &v[2..] {
                            data.extend(self.bytes_sx(arg));
                        }
                        SecretKey::from_slice(&tagged_hash(v[1].text(), &data)).unwrap()
                    }
                    "even" => {
                        let p = self.poly_sx(&v[1]).expect("even of zero");
                        if self.is_even(&p) {
                            p
                        } else {
                            p.negate()
                        }
                    }
                    "sha256" => {
                        let mut data = Vec::new();
                        for arg in &v[1..] {
                            data.extend(self.bytes_sx(arg));
                        }
                        SecretKey::from_slice(sha256::Hash::hash(&data).as_ref()).unwrap()
                    }
                    "scalar" => SecretKey::from_slice(&self.bytes_sx(&v[1])).unwrap(),
                    x => panic!("unknown atom {x}"),
                };
                self.atoms.borrow_mut().insert(text.clone(), s);
                Some(s)
            }
        }
    }
    fn poly_sx(&self, p: &Sx) -> Sc {
        let Sx::L(v, _) = p else { panic!("poly expected: {p:?}") };
        assert_eq!(v[0].text(), "+");
        let mut acc: Sc = None;
        for m in &v[1..] {
            let Sx::L(ms, _) = m else { panic!("monomial expected") };
            let mut t = sc_int(ms[0].text().parse().unwrap());
            for a in &ms[1..] {
                t = sc_mul(t, self.atom(a));
            }
            acc = sc_add(acc, t);
        }
        acc
    }
    fn bytes_sx(&self, a: &Sx) -> Vec<u8> {
        let Sx::L(v, _) = a else { panic!("bytes expected: {a:?}") };
        match v[0].text() {
            "ser" => self
                .point(&self.poly_sx(&v[1]).expect("serializing the point at infinity"))
                .serialize()
                .to_vec(),
            "x" => self.point(&self.poly_sx(&v[1]).expect("x of infinity")).serialize()[1..].to_vec(),
            "sk" => self
                .poly_sx(&v[1])
                .map(|s| s.secret_bytes().to_vec())
                .unwrap_or(vec![0; 32]),
            "u32" => v[1].text().parse::<u32>().expect("u32").to_be_bytes().to_vec(),
            "blob" => self.blob(v[1].text(), 32),
            "op" => self.ops.borrow()[v[1].text()].to_vec(),
            "xor" => {
                let (a, b) = (self.bytes_sx(&v[1]), self.bytes_sx(&v[2]));
                a.iter().zip(b).map(|(x, y)| x ^ y).collect()
            }
            "cat" => v[1..].iter().flat_map(|x| self.bytes_sx(x)).collect(),
            "hash" | "even" => self.atom(a).unwrap().secret_bytes().to_vec(),
            x => panic!("unknown bytes term {x}"),
        }
    }
    pub fn poly(&self, s: &str) -> Sc {
        self.poly_sx(&parse_sx(s))
    }
    pub fn bytes(&self, s: &str) -> Vec<u8> {
        self.bytes_sx(&parse_sx(s))
    }
    /// script of a taproot output with the x-only key given as "(x POLY)"
    pub fn p2tr(&self, x: &str) -> ScriptBuf {
        let mut v = vec![0x51, 0x20];
        v.extend(self.bytes(x));
        ScriptBuf::from_bytes(v)
    }

    // ------------------------------------------------------------ keys and scripts
    /// Secret of a declared key {base, neg, tweak, arg}.
    pub fn key(&self, d: &Value) -> SecretKey {
        let mut s = self.base(d["base"].as_str().unwrap());
        if d["neg"].as_bool().unwrap() {
            s = s.negate();
        }
        let tap = |s: SecretKey, root: &[u8]| {
            let e = if self.is_even(&s) { s } else { s.negate() };
            let mut data = self.point(&e).serialize()[1..].to_vec();
            data.extend_from_slice(root);
            let t = SecretKey::from_slice(&tagged_hash("TapTweak", &data)).unwrap();
            sc_add(Some(e), Some(t)).unwrap()
        };
        match d["tweak"].as_str().unwrap() {
            "none" => s,
            "tap" => tap(s, &[]),
            "taproot" => tap(s, &self.blob(d["arg"].as_str().unwrap(), 32)),
            "sp" => sc_add(Some(s), Some(self.base(d["arg"].as_str().unwrap()))).unwrap(),
            x => panic!("unknown tweak {x}"),
        }
    }
    pub fn chunks(&self, keys: &Value, seq: &Value) -> Vec<u8> {
        let mut out = Vec::new();
        for c in seq.as_array().unwrap() {
            let n = c[0].as_u64().unwrap() as usize;
            let r = c[2].as_str().unwrap();
            let start = out.len();
            let pk = || self.point(&self.key(&keys[r]));
            match c[1].as_str().unwrap() {
                "b" => out.push(u8::from_str_radix(r, 16).unwrap()),
                "pk" => out.extend(pk().serialize()),
                "upk" => out.extend(pk().serialize_uncompressed()),
                "hyb" => {
                    let p = pk();
                    let mut u = p.serialize_uncompressed();
                    u[0] = 6 + (p.serialize()[0] - 2);
                    out.extend(u)
                }
                "x" => out.extend(&pk().serialize()[1..]),
                "offx" => out.extend(self.offcurve(r)),
                "badpk" => {
                    out.push(2);
                    out.extend(self.offcurve(r))
                }
                "h160pk" => out.extend(hash160::Hash::hash(&pk().serialize()).to_byte_array()),
                "h160upk" => {
                    out.extend(hash160::Hash::hash(&pk().serialize_uncompressed()).to_byte_array())
                }
                "h160rs" => {
                    let mut rs = vec![0x00, 0x14];
                    rs.extend(hash160::Hash::hash(&pk().serialize()).to_byte_array());
                    out.extend(hash160::Hash::hash(&rs).to_byte_array())
                }
                "nums" => out.extend(unhex(NUMS)),
                "j" => out.extend(self.blob(&format!("j/{r}"), n)),
                x => panic!("unknown chunk {x}"),
            }
            assert_eq!(out.len() - start, n, "chunk length {c}");
        }
        out
    }
    pub fn offcurve(&self, r: &str) -> [u8; 32] {
        for i in 0.. {
            let h = sha256::Hash::hash(format!("{}/off/{}/{}", self.seed, r, i).as_bytes())
                .to_byte_array();
            if bitcoin::XOnlyPublicKey::from_slice(&h).is_err() {
                return h;
            }
        }
        unreachable!()
    }
    pub fn script(&self, keys: &Value, seq: &Value) -> ScriptBuf {
        ScriptBuf::from_bytes(self.chunks(keys, seq))
    }
    pub fn outpoint(&self, inp: &Value) -> OutPoint {
        let b: Vec<u8> =
            inp["bytes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        let b: [u8; 36] = b.try_into().unwrap();
        self.ops.borrow_mut().insert(inp["op"].as_str().unwrap().to_string(), b);
        op_from_bytes(&b)
    }
    pub fn txin(&self, keys: &Value, inp: &Value) -> TxIn {
        let wit: Vec<Vec<u8>> =
            inp["wit"].as_array().unwrap().iter().map(|w| self.chunks(keys, w)).collect();
        TxIn {
            previous_output: self.outpoint(inp),
            script_sig: self.script(keys, &inp["ss"]),
            sequence: Sequence::MAX,
            witness: Witness::from_slice(&wit),
        }
    }
    pub fn value(&self, i: usize) -> Amount {
        let h = sha256::Hash::hash(format!("{}/val/{}", self.seed, i).as_bytes()).to_byte_array();
        let v = u64::from_le_bytes(h[..8].try_into().unwrap());
        Amount::from_sat(match h[8] % 8 {
            0 => 0,
            1 => 2_100_000_000_000_000,
            2 => v % 1000,
            _ => v % 100_000_000_000,
        })
    }
}

pub fn op_from_bytes(b: &[u8; 36]) -> OutPoint {
    OutPoint {
        txid: Txid::from_byte_array(b[..32].try_into().unwrap()),
        vout: u32::from_le_bytes(b[32..].try_into().unwrap()),
    }
}
pub fn op_to_bytes(o: &OutPoint) -> [u8; 36] {
    let mut b = [0u8; 36];
    b[..32].copy_from_slice(&o.txid.to_byte_array());
    b[32..].copy_from_slice(&o.vout.to_le_bytes());
    b
}
pub fn tx(input: Vec<TxIn>, output: Vec<TxOut>) -> Transaction {
    Transaction { version: Version::TWO, lock_time: LockTime::ZERO, input, output }
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

// ---------------------------------------------------------------- reporting
/// Collects disagreements between the implementation and the specification.
#[derive(Default)]
pub struct Report {
    pub checked: u64,
    pub comparisons: u64,
    pub violations: Vec<Value>,
    pub samples: Vec<Value>,
    pub counts: std::collections::BTreeMap<String, u64>,
}
impl Report {
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_default() += 1;
    }
    pub fn bad(&mut self, case: &Value, what: &str, expected: String, actual: String) {
        if self.violations.len() < 20 {
            self.violations
                .push(json!({"what": what, "expected": expected, "actual": actual, "case": case}));
        }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, case: &Value, what: &str, expected: &T, actual: &T) -> bool {
        self.comparisons += 1;
        if expected != actual {
            let cut = |s: String| s.chars().take(3000).collect::<String>();
            self.bad(case, what, cut(format!("{expected:?}")), cut(format!("{actual:?}")));
            false
        } else {
            true
        }
    }
    pub fn check(&mut self, case: &Value, what: &str, cond: bool) -> bool {
        self.comparisons += 1;
        if !cond {
            self.bad(case, what, "true".into(), "false".into());
        }
        cond
    }
    pub fn absorb(&mut self, o: Report) {
        self.checked += o.checked;
        self.comparisons += o.comparisons;
        self.violations.extend(o.violations);
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
    }
    pub fn finish(self, path: &str) {
        let v = json!({"checked": self.checked, "comparisons": self.comparisons,
            "violations": self.violations, "samples": self.samples, "counts": self.counts});
        std::fs::write(path, serde_json::to_string(&v).unwrap()).unwrap();
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// Runs code under test; a panic is returned as its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    static HOOK: std::sync::Once = std::sync::Once::new();
    HOOK.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if GUARDED.with(|g| g.get()) == 0 {
                return old(i);
            }
            let m = format!("{i}");
            LAST_PANIC.with(|p| *p.borrow_mut() = m);
        }))
    });
    GUARDED.with(|g| g.set(g.get() + 1));
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    res.map_err(|_| format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

pub fn read_lines(path: &str) -> Vec<Value> {
    std::fs::read_to_string(path)
        .unwrap_or_else(|e| panic!("{path}: {e}"))
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(l).unwrap_or_else(|e| panic!("{path}: {e}: {l}")))
        .collect()
}

/// Runs `one` on every scenario, on all cores.
pub fn each(scn: &str, exp: &str, out: &str, one: impl Fn(&Value, &Value, &mut Report) + Sync) {
    each_on(8, scn, exp, out, one)
}
pub fn each_on(threads: usize, scn: &str, exp: &str, out: &str, one: impl Fn(&Value, &Value, &mut Report) + Sync) {
    let scns = read_lines(scn);
    let exps: std::collections::HashMap<u64, Value> = read_lines(exp).into_iter().map(|e| (e["id"].as_u64().unwrap(), e)).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let reports = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                sc.spawn(|| {
                    let mut r = Report::default();
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if i >= scns.len() {
                            return r;
                        }
                        let id = scns[i]["id"].as_u64().unwrap();
                        r.checked += 1;
                        one(&scns[i], &exps[&id], &mut r);
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker")).collect::<Vec<_>>()
    });
    let mut r = Report::default();
    r.samples = scns.iter().take(2).cloned().collect();
    for x in reports {
        r.absorb(x);
    }
    r.finish(out);
}

