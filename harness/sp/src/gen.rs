//! Random scenarios in the vocabulary of the specification (SPProto.tla).
use hcore::serde_json::{json, Map, Value};
use hcore::Rng;

pub struct Gen {
    pub rng: Rng,
    pub keys: Map<String, Value>,
    pub inputs: Vec<Value>,
    pub nk: usize,
    pub nj: usize,
    /// keys of ordinary inputs and whether they are taproot output keys
    pub used: Vec<(String, bool)>,
}

fn b(h: &str) -> Value {
    json!([1, "b", h])
}

impl Gen {
    pub fn new(rng: Rng) -> Self {
        Gen { rng, keys: Map::new(), inputs: vec![], nk: 0, nj: 0, used: vec![] }
    }
    pub fn key_with(&mut self, base: &str, neg: bool, tweak: &str, arg: &str) -> String {
        self.nk += 1;
        let n = format!("k{}", self.nk);
        self.keys
            .insert(n.clone(), json!({"base": base, "neg": neg, "tweak": tweak, "arg": arg}));
        n
    }
    pub fn key(&mut self) -> String {
        let base = format!("a{}", self.nk + 1);
        let neg = self.rng.chance(1, 2);
        self.key_with(&base, neg, "none", "")
    }
    /// A new key or, at times, one that another input has already (an address used again).
    fn input_key(&mut self, tap: bool) -> String {
        let old: Vec<String> = self.used.iter().filter(|u| u.1 == tap).map(|u| u.0.clone()).collect();
        if !old.is_empty() && self.rng.chance(1, 6) {
            return self.rng.pick(&old).clone();
        }
        let k = if tap { self.tapkey() } else { self.key() };
        self.used.push((k.clone(), tap));
        k
    }
    pub fn tapkey(&mut self) -> String {
        let base = format!("a{}", self.nk + 1);
        let neg = self.rng.chance(1, 2);
        match self.rng.below(3) {
            0 => self.key_with(&base, neg, "none", ""),
            1 => self.key_with(&base, neg, "tap", ""),
            _ => {
                let arg = format!("root{}", self.nk);
                self.key_with(&base, neg, "taproot", &arg)
            }
        }
    }
    pub fn j(&mut self, n: usize) -> Value {
        self.nj += 1;
        json!([n, "j", format!("j{}", self.nj)])
    }
    fn sig(&mut self) -> Value {
        let n = *self.rng.pick(&[64usize, 65, 64, 71, 72]);
        json!([self.j(n)])
    }
    fn ctl(&mut self, internal: Value, depth: usize) -> Value {
        let mut v = vec![b(if self.rng.chance(1, 2) { "c0" } else { "c1" }), internal];
        if depth > 0 {
            v.push(self.j(32 * depth));
        }
        json!(v)
    }
    fn annex(&mut self) -> Value {
        let n = self.rng.below(40);
        if n == 0 {
            json!([b("50")])
        } else {
            json!([b("50"), self.j(n)])
        }
    }
    pub fn spk_tr(k: &str) -> Value {
        json!([b("51"), b("20"), [32, "x", k]])
    }
    pub fn spk_wpkh(k: &str) -> Value {
        json!([b("00"), b("14"), [20, "h160pk", k]])
    }
    pub fn spk_sh(k: &str) -> Value {
        json!([b("a9"), b("14"), [20, "h160rs", k], b("87")])
    }
    pub fn spk_pkh(k: &str) -> Value {
        json!([b("76"), b("a9"), b("14"), [20, "h160pk", k], b("88"), b("ac")])
    }
    /// previous output, script signature, witness
    pub fn ordinary(&mut self, which: usize) -> (Value, Value, Value, String) {
        match which {
            0 => {
                let k = self.input_key(true);
                let mut w = vec![self.sig()];
                if self.rng.chance(1, 4) {
                    w.push(self.annex());
                }
                (Self::spk_tr(&k), json!([]), json!(w), k)
            }
            1 => {
                // script path whose internal key is known
                let k = self.input_key(true);
                let mut w = vec![];
                for _ in 0..self.rng.below(3) {
                    let s = self.sig();
                    w.push(s);
                }
                let (n, d) = (self.rng.range(1, 40), self.rng.below(5));
                w.push(json!([self.j(n)]));
                let i = self.j(32);
                let c = self.ctl(i, d);
                w.push(c);
                if self.rng.chance(1, 3) {
                    w.push(self.annex());
                }
                (Self::spk_tr(&k), json!([]), json!(w), k)
            }
            2 => {
                let k = self.input_key(false);
                let s = self.sig();
                (Self::spk_wpkh(&k), json!([]), json!([s, [[33, "pk", k]]]), k)
            }
            3 => {
                let k = self.input_key(false);
                let s = self.sig();
                (
                    Self::spk_sh(&k),
                    json!([b("16"), b("00"), b("14"), [20, "h160pk", k]]),
                    json!([s, [[33, "pk", k]]]),
                    k,
                )
            }
            _ => {
                let k = self.input_key(false);
                let ss = self.pkh_script_sig(&k);
                (Self::spk_pkh(&k), ss, json!([]), k)
            }
        }
    }
    fn pkh_script_sig(&mut self, k: &str) -> Value {
        let sig = self.j(72);
        match self.rng.below(9) {
            // anything around the key, pushed or not
            n if n >= 6 => {
                let mut parts = vec![];
                for after in [false, true] {
                    if after {
                        parts.push(json!([33, "pk", k]));
                    }
                    for _ in 0..self.rng.below(3) {
                        let n = self.rng.range(1, 34);
                        let other = self.key();
                        parts.push(match self.rng.below(6) {
                            0 => json!([33, "pk", other]),
                            1 => json!([65, "upk", k]),
                            2 => json!([33, "pk", k]),
                            3 => b(*self.rng.pick(&["21", "00", "51", "02", "03", "4c"])),
                            _ => self.j(n),
                        });
                    }
                }
                json!(parts)
            }
            // malleated forms: the key is not where a standard spend puts it
            0 => json!([b("48"), sig, b("21"), [33, "pk", k], b("61")]),
            1 => {
                let n = self.rng.range(1, 80);
                let junk = self.j(n);
                json!([junk, b("48"), sig, b("21"), [33, "pk", k]])
            }
            2 => {
                let other = self.key();
                json!([b("21"), [33, "pk", k], b("48"), sig, b("21"), [33, "pk", other], b("75")])
            }
            3 => {
                let other = self.key();
                let n = self.rng.range(1, 40);
                let junk = self.j(n);
                json!([b("21"), [33, "pk", other], b("75"), b("48"), sig, b("4c"), b("21"), [33, "pk", k], junk])
            }
            _ => json!([b("48"), sig, b("21"), [33, "pk", k]]),
        }
    }
    fn exotic(&mut self, which: usize) -> (Value, Value, Value) {
        let s = self.sig();
        let k = self.key();
        let t = self.tapkey();
        match which {
            0 => {
                // NUMS internal key
                let d = self.rng.below(4);
                let n = self.rng.range(1, 30);
                let c = self.ctl(json!([32, "nums", ""]), d);
                let mut w = vec![json!([self.j(n)]), c];
                if self.rng.chance(1, 2) {
                    w.insert(0, s);
                }
                if self.rng.chance(1, 2) {
                    w.push(self.annex());
                }
                (Self::spk_tr(&t), json!([]), json!(w))
            }
            1 => {
                // NUMS bytes elsewhere in the control block: eligible
                let i = self.j(32);
                (
                    Self::spk_tr(&t),
                    json!([]),
                    json!([s, [b("51")], [b("c0"), i, [32, "nums", ""]]]),
                )
            }
            2 => {
                // malformed control block
                let n = *self.rng.pick(&[0usize, 1, 2, 31, 32]);
                let w = if n == 0 { json!([s, [b("51")], []]) } else { json!([s, [b("51")], [self.j(n)]]) };
                (Self::spk_tr(&t), json!([]), w)
            }
            3 => (Self::spk_tr(&t), json!([b("51")]), json!([s])),
            4 => (json!([b("51"), b("20"), [32, "offx", "o1"]]), json!([]), json!([s])),
            5 => (
                json!([b("00"), b("14"), [20, "h160upk", k]]),
                json!([]),
                json!([s, [[65, *self.rng.pick(&["upk", "hyb"]), k]]]),
            ),
            6 => (json!([b("00"), b("14"), [20, "j", "wp"]]), json!([]), json!([s, [[33, "badpk", "o2"]]])),
            7 => (Self::spk_wpkh(&k), json!([b("51")]), json!([s, [[33, "pk", k]]])),
            8 => {
                // P2SH-P2WSH
                let h = self.j(20);
                let w = self.j(32);
                (
                    json!([b("a9"), b("14"), h, b("87")]),
                    json!([b("22"), b("00"), b("20"), w]),
                    json!([s, [[33, "pk", k]]]),
                )
            }
            9 => {
                // P2SH multisig
                let h = self.j(20);
                (
                    json!([b("a9"), b("14"), h, b("87")]),
                    json!([b("00"), b("21"), [33, "pk", k], b("16"), b("00"), b("14"), [20, "h160pk", k]]),
                    json!([]),
                )
            }
            10 => (
                Self::spk_sh(&k),
                json!([b("16"), b("00"), b("14"), [20, "h160upk", k]]),
                json!([s, [[65, "upk", k]]]),
            ),
            11 => {
                let sg = self.j(72);
                (
                    json!([b("76"), b("a9"), b("14"), [20, "h160upk", k], b("88"), b("ac")]),
                    json!([b("48"), sg, b("41"), [65, "upk", k]]),
                    json!([]),
                )
            }
            12 => {
                // key hash of another key
                let sg = self.j(72);
                let o = self.key();
                (Self::spk_pkh(&o), json!([b("48"), sg, b("21"), [33, "pk", k]]), json!([]))
            }
            13 => {
                // hash of the uncompressed key, signature script carries the compressed one
                let sg = self.j(72);
                (
                    json!([b("76"), b("a9"), b("14"), [20, "h160upk", k], b("88"), b("ac")]),
                    json!([b("48"), sg, b("21"), [33, "pk", k]]),
                    json!([]),
                )
            }
            14 => (Self::spk_pkh(&k), json!([]), json!([[[33, "pk", k]]])),
            15 => (Self::spk_pkh(&k), json!([b("21"), [33, "pk", k]]), json!([s])),
            16 => (json!([b("21"), [33, "pk", k], b("ac")]), json!([b("48"), self.j(72)]), json!([])),
            17 => {
                let h = self.j(32);
                (json!([b("00"), b("20"), h]), json!([]), json!([s, [[33, "pk", k]]]))
            }
            18 => (json!([b("51"), b("02"), b("4e"), b("73")]), json!([]), json!([])),
            19 => (json!([]), json!([b("51")]), json!([])),
            20 => (Self::spk_tr(&t), json!([]), json!([])),
            21 => (Self::spk_wpkh(&k), json!([]), json!([])),
            22 => {
                let n = self.rng.range(1, 33);
                let ss = json!([self.j(n)]);
                (Self::spk_pkh(&k), ss, json!([]))
            }
            23 => (Self::spk_wpkh(&k), json!([]), json!([[]])),
            24 => (
                json!([b("00"), b("14"), [20, "h160pk", k]]),
                json!([]),
                json!([s, [[33, "pk", k], b("00")]]),
            ),
            25 => {
                let n = self.rng.range(1, 60);
                let x = self.j(n);
                let y = self.j(n + 3);
                (json!([x]), json!([y]), json!([s]))
            }
            26 => {
                // two-element witness whose last element only looks like an annex
                (Self::spk_tr(&t), json!([]), json!([s, [b("50"), [32, "nums", ""]]]))
            }
            _ => {
                // 33-byte taproot-like and wpkh-like scripts
                let h = self.j(31);
                (json!([b("51"), b("1f"), h]), json!([]), json!([s]))
            }
        }
    }
    fn future(&mut self) -> (Value, Value, Value) {
        let v = *self.rng.pick(&["52", "53", "5a", "60", "5f"]);
        let (p, n) = *self.rng.pick(&[("20", 32usize), ("14", 20), ("02", 2), ("28", 40)]);
        let x = self.j(n);
        (json!([b(v), b(p), x]), json!([]), json!([]))
    }
    fn not_future(&mut self) -> (Value, Value, Value) {
        // high opcode scripts that are no witness programs
        let x = self.j(1);
        let y = self.j(41);
        match self.rng.below(3) {
            0 => (json!([b("52"), b("01"), x]), json!([]), json!([])),
            1 => (json!([b("52"), b("29"), y]), json!([]), json!([])),
            _ => (json!([b("61"), b("20"), self.j(32)]), json!([b("51")]), json!([])),
        }
    }
    /// Serialized outpoint: transactions and indexes that differ in high, low and middle bytes.
    pub fn op_bytes(&mut self, mode: usize) -> Vec<u8> {
        let t = match mode {
            0 => self.rng.bytes32(),
            1 => {
                // shared prefix, differ in one byte
                let mut t = [0x5a; 32];
                let i = self.rng.below(32);
                t[i] = *self.rng.pick(&[0u8, 1, 0x59, 0x5b, 0x7f, 0x80, 0xff]);
                t
            }
            _ => [0x11; 32],
        };
        let v: u32 = match self.rng.below(9) {
            0 => 0,
            1 => 1,
            2 => 255,
            3 => 256,
            4 => 65535,
            5 => 65536,
            6 => u32::MAX,
            7 => 1 << 24,
            _ => self.rng.next() as u32,
        };
        let mut o = t.to_vec();
        o.extend(v.to_le_bytes());
        o
    }
    pub fn push_input(&mut self, bytes: Vec<u8>, spk: Value, ss: Value, wit: Value) {
        let n = format!("o{}", self.inputs.len() + 1);
        self.inputs
            .push(json!({"op": n, "bytes": bytes, "spk": spk, "ss": ss, "wit": wit}));
    }
    pub fn fresh_op(&mut self) -> Vec<u8> {
        loop {
            let mode = *self.rng.pick(&[0usize, 1, 1, 2]);
            let o = self.op_bytes(mode);
            if !self.inputs.iter().any(|i| i["bytes"] == json!(o)) {
                return o;
            }
        }
    }
    /// Inputs of a transaction; `exotic` is the share in percent of unusual ones.
    pub fn make_inputs(&mut self, n: usize, exotic: usize, future: usize) {
        for _ in 0..n {
            let op = self.fresh_op();
            let r = self.rng.below(100);
            let (spk, ss, wit) = if r < future {
                self.future()
            } else if r < exotic {
                if self.rng.chance(1, 12) {
                    self.not_future()
                } else {
                    let w = self.rng.below(28);
                    self.exotic(w)
                }
            } else {
                let w = self.rng.below(5);
                let (a, s, c, _) = self.ordinary(w);
                (a, s, c)
            };
            self.push_input(op, spk, ss, wit);
        }
    }
    /// Keys that cancel each other, entirely or in a prefix of the inputs.
    pub fn cancelling(&mut self, total: bool) {
        let base = format!("c{}", self.nk + 1);
        let (n1, n2) = if self.rng.chance(1, 2) { (false, true) } else { (true, false) };
        let k1 = self.key_with(&base, n1, "none", "");
        let k2 = self.key_with(&base, n2, "none", "");
        let mut specs = vec![k1, k2];
        if self.rng.chance(1, 3) {
            let x = self.key_with(&format!("{base}x"), n1, "none", "");
            let y = self.key_with(&format!("{base}x"), n2, "none", "");
            specs.push(x);
            specs.push(y);
        }
        if total {
            self.rng.shuffle(&mut specs);
        }
        for k in specs {
            let op = self.fresh_op();
            let s = self.sig();
            match self.rng.below(3) {
                0 => self.push_input(op, Self::spk_wpkh(&k), json!([]), json!([s, [[33, "pk", k]]])),
                1 => self.push_input(
                    op,
                    Self::spk_sh(&k),
                    json!([b("16"), b("00"), b("14"), [20, "h160pk", k]]),
                    json!([s, [[33, "pk", k]]]),
                ),
                _ => {
                    let ss = self.pkh_script_sig(&k);
                    self.push_input(op, Self::spk_pkh(&k), ss, json!([]))
                }
            }
        }
        if !total {
            let n = self.rng.range(1, 2);
            for _ in 0..n {
                let op = self.fresh_op();
                let w = self.rng.below(5);
                let (a, s, c, _) = self.ordinary(w);
                self.push_input(op, a, s, c);
            }
        }
    }
}

pub const LABELS: [&str; 9] =
    ["0", "1", "2", "255", "256", "65536", "2147483648", "4294967295", "16909060"];

fn wallets(g: &mut Gen, n: usize, max_labels: usize) -> Vec<Value> {
    (1..=n)
        .map(|i| {
            let mut ls: Vec<&str> = LABELS.to_vec();
            g.rng.shuffle(&mut ls);
            ls.truncate(g.rng.below(max_labels + 1));
            json!({"scan": format!("b{i}"), "scanneg": g.rng.chance(1, 2),
                   "spend": format!("s{i}"), "spendneg": g.rng.chance(1, 2), "labels": ls})
        })
        .collect()
}

fn finish(g: Gen, id: usize, wallets: Vec<Value>, pays: Vec<Value>, outs: Vec<Value>, light: usize, skeys: Option<Vec<Value>>) -> Value {
    let skeys = skeys.unwrap_or_default();
    json!({"id": id, "keys": Value::Object(g.keys), "inputs": g.inputs, "wallets": wallets,
           "pays": pays, "outs": outs, "light": light, "skeys": skeys})
}

fn some_inputs(g: &mut Gen) {
    let r = g.rng.below(12);
    match r {
        0 => g.cancelling(false),
        1 => {
            let n = g.rng.range(3, 7);
            g.make_inputs(n, 30, 0)
        }
        _ => {
            let n = g.rng.range(1, 4);
            g.make_inputs(n, 25, 0)
        }
    }
}

fn rand_script(g: &mut Gen) -> Value {
    match g.rng.below(7) {
        0 => json!([]),
        1 => json!([b("6a"), g.j(10)]),
        2 => json!([b("00"), b("14"), g.j(20)]),
        3 => json!([b("51"), b("02"), b("4e"), b("73")]),
        4 => json!([b("51"), b("1f"), g.j(31)]),
        5 => json!([b("52"), b("20"), g.j(32)]),
        _ => json!([b("51"), b("21"), g.j(33)]),
    }
}

/// C01, C07, C16: honest senders, outputs in any order among decoys.
pub fn honest(seed: u64, salt: &str, id: usize, big: bool, light: usize, all_labels: bool) -> Value {
    let mut g = Gen::new(Rng::new(seed, &format!("{salt}/{id}")));
    some_inputs(&mut g);
    let nw = g.rng.range(1, 3);
    let ml = if all_labels { 5 } else { 4 };
    let ws = wallets(&mut g, nw, ml);
    let np = if big { 262 } else { *g.rng.pick(&[0usize, 1, 1, 2, 2, 3, 3, 4, 6]) };
    let known_only = g.rng.chance(5, 6) || big;
    let mut pays = vec![];
    for _ in 0..np {
        let w = if big { 1 } else { g.rng.range(1, nw) };
        let known: Vec<String> =
            ws[w - 1]["labels"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect();
        let label = if g.rng.chance(1, 2) || (known_only && known.is_empty()) {
            String::new()
        } else if known_only {
            g.rng.pick(&known).clone()
        } else {
            g.rng.pick(&LABELS).to_string()
        };
        pays.push(json!({"w": w, "label": label}));
    }
    let mut outs: Vec<Value> = (1..=np).map(|i| json!({"t": "pay", "i": i})).collect();
    for _ in 0..g.rng.below(4) {
        let o = match g.rng.below(4) {
            0 => {
                let k = g.tapkey();
                json!({"t": "key", "key": k})
            }
            1 => {
                // the wallet's own spend key, untweaked
                let w = g.rng.below(nw);
                let (s, n) = (ws[w]["spend"].as_str().unwrap().to_string(), ws[w]["spendneg"].as_bool().unwrap());
                let k = g.key_with(&s, n, "none", "");
                json!({"t": "key", "key": k})
            }
            2 => json!({"t": "off"}),
            _ => {
                let s = rand_script(&mut g);
                json!({"t": "other", "spk": s})
            }
        };
        outs.push(o);
    }
    g.rng.shuffle(&mut outs);
    finish(g, id, ws, pays, outs, light, None)
}

/// C02: transactions built to mislead the scanner.
pub fn adversarial(seed: u64, salt: &str, id: usize) -> Value {
    let mut g = Gen::new(Rng::new(seed, &format!("{salt}/{id}")));
    some_inputs(&mut g);
    let nw = g.rng.range(1, 3);
    let mut ws = wallets(&mut g, nw, 4);
    if nw > 1 && g.rng.chance(1, 5) {
        // two wallets with one scan key
        ws[1]["scan"] = ws[0]["scan"].clone();
        ws[1]["scanneg"] = ws[0]["scanneg"].clone();
    }
    let mut outs: Vec<Value> = vec![];
    for _ in 0..g.rng.range(1, 7) {
        let w = g.rng.range(1, nw);
        let known: Vec<String> =
            ws[w - 1]["labels"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect();
        let o = match g.rng.below(14) {
            12 | 13 => {
                // close to a payment: wrong signs, labels twice, two labels
                let l = |g: &mut Gen| {
                    if known.is_empty() || g.rng.chance(1, 6) {
                        g.rng.pick(&LABELS).to_string()
                    } else {
                        g.rng.pick(&known).clone()
                    }
                };
                let (m1, m2) = (l(&mut g), l(&mut g));
                let mut c = *g.rng.pick(&[[1i32, 1, -1, 0], [1, -1, 0, 0], [1, -1, 1, 0], [1, 1, 2, 0], [1, 1, 1, 1],
                    [1, 1, 1, -1], [0, 1, 0, 0], [0, 1, 1, 0], [1, 0, 1, 0], [2, 1, 0, 0], [1, 2, 0, 0], [1, 1, -2, 0], [1, 1, 1, 0]]);
                if g.rng.chance(1, 3) {
                    c = c.map(|x| -x);
                }
                json!({"t": "near", "w": w, "k": g.rng.below(2), "m1": m1, "m2": m2, "c": c})
            }
            0..=5 => {
                let label = match g.rng.below(5) {
                    0 | 1 => String::new(),
                    2 | 3 if !known.is_empty() => g.rng.pick(&known).clone(),
                    _ => g.rng.pick(&LABELS).to_string(),
                };
                json!({"t": "slot", "w": w, "k": g.rng.below(4), "label": label})
            }
            6 | 7 if !outs.is_empty() => {
                let i = g.rng.range(1, outs.len());
                if outs[i - 1]["t"] == "slot" || outs[i - 1]["t"] == "key" {
                    json!({"t": "dup", "i": i})
                } else {
                    json!({"t": "off"})
                }
            }
            8 => {
                let k = g.tapkey();
                json!({"t": "key", "key": k})
            }
            9 => {
                let (s, n) =
                    (ws[w - 1]["spend"].as_str().unwrap().to_string(), ws[w - 1]["spendneg"].as_bool().unwrap());
                let k = g.key_with(&s, n, "none", "");
                json!({"t": "key", "key": k})
            }
            10 => json!({"t": "off"}),
            _ => {
                let s = rand_script(&mut g);
                json!({"t": "other", "spk": s})
            }
        };
        outs.push(o);
    }
    finish(g, id, ws, vec![], outs, 0, None)
}

/// C03: the sender's primitives on arbitrary script/key lists and code lists.
pub fn sender(seed: u64, salt: &str, id: usize, big: bool) -> Value {
    let mut g = Gen::new(Rng::new(seed, &format!("{salt}/{id}")));
    let op = g.fresh_op();
    g.push_input(op, json!([]), json!([]), json!([]));
    let mut sk: Vec<Value> = vec![];
    let push = |g: &mut Gen, sk: &mut Vec<Value>, k: String, w: usize| {
        let spk = match w {
            0 => Gen::spk_tr(&k),
            1 => Gen::spk_wpkh(&k),
            2 => Gen::spk_sh(&k),
            3 => Gen::spk_pkh(&k),
            4 => json!([b("00"), b("20"), g.j(32)]),
            5 => json!([b("52"), b("20"), g.j(32)]),
            6 => json!([b("21"), [33, "pk", k], b("ac")]),
            7 => json!([]),
            _ => json!([b("51"), b("02"), b("4e"), b("73")]),
        };
        sk.push(json!({"spk": spk, "key": k}));
    };
    let n = g.rng.range(1, 5);
    let mut i = 0;
    while i < n {
        i += 1;
        match g.rng.below(9) {
            0 => {
                // a key and its negation, not both as taproot
                let base = format!("c{}", g.nk + 1);
                let k1 = g.key_with(&base, true, "none", "");
                let k2 = g.key_with(&base, false, "none", "");
                let (w1, w2) = (g.rng.range(1, 3), g.rng.range(1, 3));
                push(&mut g, &mut sk, k1, w1);
                push(&mut g, &mut sk, k2, w2);
            }
            1 => {
                // a taproot key with odd Y counts negated and cancels the same key in another script
                let base = format!("c{}", g.nk + 1);
                let k1 = g.key_with(&base, true, "none", "");
                push(&mut g, &mut sk, k1.clone(), 0);
                let w = g.rng.range(1, 3);
                push(&mut g, &mut sk, k1, w);
            }
            2 => {
                let k = g.key();
                let w = g.rng.range(4, 8);
                push(&mut g, &mut sk, k, w);
            }
            3 => {
                // the same key twice
                let k = g.key();
                let (w1, w2) = (g.rng.below(4), g.rng.below(4));
                push(&mut g, &mut sk, k.clone(), w1);
                push(&mut g, &mut sk, k, w2);
            }
            _ => {
                let w = g.rng.below(4);
                let k = if w == 0 { g.tapkey() } else { g.key() };
                push(&mut g, &mut sk, k, w);
            }
        }
    }
    if g.rng.chance(1, 15) {
        sk.retain(|e| e["spk"].as_array().unwrap().len() < 2);
    }
    if g.rng.chance(1, 2) {
        g.rng.shuffle(&mut sk);
    }
    let nw = g.rng.range(1, 4);
    let mut ws = wallets(&mut g, nw, 0);
    if nw > 1 && g.rng.chance(1, 2) {
        ws[1]["scan"] = ws[0]["scan"].clone();
        ws[1]["scanneg"] = ws[0]["scanneg"].clone();
        if g.rng.chance(1, 3) {
            // same x coordinate, other parity: a different scan key
            ws[1]["scanneg"] = json!(!ws[0]["scanneg"].as_bool().unwrap());
        }
    }
    let np = if big { 300 } else { g.rng.below(8) };
    let pays: Vec<Value> = (0..np)
        .map(|_| {
            let label = if g.rng.chance(1, 2) { String::new() } else { g.rng.pick(&LABELS).to_string() };
            let w = if big { 1 } else { g.rng.range(1, nw) };
            json!({"w": w, "label": label, "net": g.rng.below(3)})
        })
        .collect();
    finish(g, id, ws, pays, vec![], 0, Some(sk))
}

/// C04, C05: previous outputs and witnesses of every form.
pub fn inputs_only(seed: u64, salt: &str, id: usize, exotic: usize, future: usize) -> Value {
    let mut g = Gen::new(Rng::new(seed, &format!("{salt}/{id}")));
    match g.rng.below(20) {
        0 => g.cancelling(true),
        1 => g.cancelling(false),
        2 => {
            // only ineligible ones
            let n = g.rng.range(1, 3);
            g.make_inputs(n, 100, 0)
        }
        3 => {}
        _ => {
            let n = g.rng.range(1, 7);
            let f = if g.rng.chance(1, 6) { future } else { 0 };
            g.make_inputs(n, exotic, f)
        }
    }
    g.rng.clone().shuffle(&mut g.inputs);
    let ws = wallets(&mut g, 1, 0);
    finish(g, id, ws, vec![], vec![], 0, None)
}

/// C20: outpoints with taproot outputs of the wallet, or HD inputs.
pub fn helpers(seed: u64, salt: &str, id: usize, hd: bool) -> Value {
    let mut g = Gen::new(Rng::new(seed, &format!("{salt}/{id}")));
    let n = g.rng.range(if id % 17 == 5 { 0 } else { 1 }, 5);
    let mut sk = vec![];
    let neg = g.rng.chance(1, 2);
    let mut odd_one = g.rng.chance(1, 5);
    for _ in 0..n {
        let op = g.fresh_op();
        if hd {
            let base = if g.rng.chance(1, 5) { "hdx".to_string() } else { format!("hd{}", g.nk + 1) };
            // one secret per path
            let neg = if base == "hdx" { neg } else { g.rng.chance(1, 2) };
            let w = g.rng.below(6);
            let k = if w == 0 || w == 4 { g.key_with(&base, neg, "tap", "") } else { g.key_with(&base, neg, "none", "") };
            let spk = match w {
                0 | 4 => Gen::spk_tr(&k),
                1 => Gen::spk_wpkh(&k),
                2 => Gen::spk_sh(&k),
                3 => Gen::spk_pkh(&k),
                _ if g.rng.chance(1, 8) => json!([b("52"), b("20"), g.j(32)]),
                _ => json!([b("00"), b("20"), g.j(32)]),
            };
            // at times the path leads to another key than the one of the script
            let spk = if odd_one && w < 5 {
                odd_one = false;
                let other = match (w, g.rng.below(4)) {
                    (0 | 4, 0 | 1) => g.key_with(&base, neg, "taproot", "root"),
                    (0 | 4, 2) => g.key_with(&base, neg, "none", ""),
                    (0 | 4, _) => {
                        let o = format!("hd{}", g.nk + 1);
                        g.key_with(&o, neg, "tap", "")
                    }
                    (_, 0) => g.key_with(&base, neg, "tap", ""),
                    // the other of the two keys with this x coordinate
                    (_, 1) if n == 1 => g.key_with(&base, !neg, "none", ""),
                    _ => {
                        let o = format!("hd{}", g.nk + 1);
                        g.key_with(&o, neg, "none", "")
                    }
                };
                match w {
                    0 | 4 => Gen::spk_tr(&other),
                    1 => Gen::spk_wpkh(&other),
                    2 if g.rng.chance(1, 4) => json!([b("a9"), b("14"), g.j(20), b("87")]),
                    2 => Gen::spk_sh(&other),
                    _ => Gen::spk_pkh(&other),
                }
            } else {
                spk
            };
            g.push_input(op, spk.clone(), json!([]), json!([]));
            sk.push(json!({"spk": spk, "key": k}));
        } else {
            let arg = if g.rng.chance(1, 5) { "tx".to_string() } else { format!("t{}", g.nk + 1) };
            let k = g.key_with("own", neg, "sp", &arg);
            let spk = Gen::spk_tr(&k);
            g.push_input(op, spk.clone(), json!([]), json!([]));
            sk.push(json!({"spk": spk, "key": k}));
        }
    }
    let nw = g.rng.range(1, 3);
    let ws = wallets(&mut g, nw, 0);
    let np = g.rng.below(5);
    let pays: Vec<Value> = (0..np)
        .map(|_| {
            let label = if g.rng.chance(1, 2) { String::new() } else { g.rng.pick(&LABELS).to_string() };
            json!({"w": g.rng.range(1, nw), "label": label, "net": 0})
        })
        .collect();
    let mut s = finish(g, id, ws, pays, vec![], 0, Some(sk));
    if hd {
        s["hd"] = json!(true);
    }
    s
}

pub fn generate(prop: &str, seed: u64, n: usize) -> Vec<Value> {
    (0..n)
        .map(|i| match prop {
            "C01" => honest(seed, prop, i, i == 3, 0, false),
            "C02" => adversarial(seed, prop, i),
            "C03" => sender(seed, prop, i, i == 3),
            "C04" => inputs_only(seed, prop, i, 75, 25),
            "C05" => inputs_only(seed, prop, i, 35, 0),
            "C07" => honest(seed, prop, i, false, 0, true),
            "C16" => honest(seed, prop, i, false, 4, true),
            "C20" => helpers(seed, prop, i, i % 2 == 0),
            _ => panic!("no generator for {prop}"),
        })
        .collect()
}
