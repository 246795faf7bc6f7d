//! Compares the sender and receiver primitives with what the specification prescribes.
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::{compute_tweak_data, extract_pubkey, scan::Scanner, scan_txouts, SpOut};
use bdk_sp::send::{create_silentpayment_partial_secret, create_silentpayment_scriptpubkeys};
use bdk_sp::{compute_shared_secret, LexMin, SpInputs};
use bitcoin::secp256k1::{PublicKey, Scalar, SecretKey};
use bitcoin::{Network, OutPoint, ScriptBuf, Transaction, TxIn, TxOut};
use hcore::serde_json::Value;
use hcore::{guard, Env, Report, Rng};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub struct Wal {
    pub scan: SecretKey,
    pub spend: SecretKey,
    pub labels: Vec<u32>,
}
pub struct World<'a> {
    pub s: &'a Value,
    pub e: &'a Value,
    pub env: Env,
    pub txins: Vec<TxIn>,
    pub prevouts: Vec<TxOut>,
    pub wallets: Vec<Wal>,
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("array expected: {v}"))
}
pub fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("string expected: {v}"))
}

pub fn label_table(env: &Env, scan: &SecretKey, labels: &[u32]) -> BTreeMap<PublicKey, (Scalar, u32)> {
    labels
        .iter()
        .map(|m| {
            let t = SilentPaymentCode::get_label(*scan, *m);
            let sk = SecretKey::from_slice(&t.to_be_bytes()).unwrap();
            (env.point(&sk), (t, *m))
        })
        .collect()
}

impl<'a> World<'a> {
    pub fn new(s: &'a Value, e: &'a Value, env: Env) -> Self {
        let txins: Vec<TxIn> = arr(&s["inputs"]).iter().map(|i| env.txin(&s["keys"], i)).collect();
        let prevouts = arr(&s["inputs"])
            .iter()
            .enumerate()
            .map(|(i, x)| TxOut { value: env.value(i), script_pubkey: env.script(&s["keys"], &x["spk"]) })
            .collect();
        let sk = |b: &Value, n: &Value| {
            let k = env.base(st(b));
            if n.as_bool().unwrap() {
                k.negate()
            } else {
                k
            }
        };
        let wallets = arr(&s["wallets"])
            .iter()
            .map(|w| Wal {
                scan: sk(&w["scan"], &w["scanneg"]),
                spend: sk(&w["spend"], &w["spendneg"]),
                labels: arr(&w["labels"]).iter().map(|l| st(l).parse().unwrap()).collect(),
            })
            .collect();
        World { s, e, env, txins, prevouts, wallets }
    }
    pub fn key(&self, name: &str) -> SecretKey {
        self.env.key(&self.s["keys"][name])
    }
    pub fn ok(&self) -> bool {
        self.e["status"] == "ok"
    }
    pub fn scanner(&self, w: usize) -> Scanner {
        let x = &self.wallets[w];
        Scanner::new(x.scan, self.env.point(&x.spend), label_table(&self.env, &x.scan, &x.labels))
    }
    /// Scripts and secrets of the inputs the specification calls eligible.
    pub fn sender_keys(&self) -> Vec<(ScriptBuf, SecretKey)> {
        arr(&self.e["elig"])
            .iter()
            .enumerate()
            .filter(|(_, e)| e["key"] != "none")
            .map(|(i, e)| (self.prevouts[i].script_pubkey.clone(), self.key(st(&e["key"]))))
            .collect()
    }
    pub fn lexmin(&self, order: &[usize]) -> Result<[u8; 36], String> {
        let mut l = LexMin::default();
        for i in order {
            l.update(&self.txins[*i].previous_output);
        }
        l.bytes().map_err(|e| e.to_string())
    }
    pub fn code(&self, i: usize) -> SilentPaymentCode {
        let p = &self.s["pays"][i];
        let w = &self.wallets[p["w"].as_u64().unwrap() as usize - 1];
        let net = [Network::Regtest, Network::Bitcoin, Network::Signet][p["net"].as_u64().unwrap_or(0) as usize];
        let c = SilentPaymentCode::new_v0(self.env.point(&w.scan), self.env.point(&w.spend), net);
        match st(&p["label"]) {
            "" => c,
            l => c.add_label(SilentPaymentCode::get_label(w.scan, l.parse().unwrap())).expect("label"),
        }
    }
    /// Output scripts; payments come from `pay`, everything else from the specification.
    pub fn outputs(&self, pay: &dyn Fn(usize) -> ScriptBuf) -> Vec<TxOut> {
        arr(&self.s["outs"])
            .iter()
            .enumerate()
            .map(|(i, o)| {
                let spk = match st(&o["t"]) {
                    "pay" if self.ok() => pay(o["i"].as_u64().unwrap() as usize - 1),
                    "other" => self.env.script(&self.s["keys"], &o["spk"]),
                    "off" => {
                        let mut v = vec![0x51, 0x20];
                        v.extend(self.env.offcurve(&format!("out{i}")));
                        ScriptBuf::from_bytes(v)
                    }
                    _ if self.e["outs"][i] == "" => {
                        let mut v = vec![0x51, 0x20];
                        v.extend(self.env.offcurve(&format!("out{i}")));
                        ScriptBuf::from_bytes(v)
                    }
                    _ => self.env.p2tr(st(&self.e["outs"][i])),
                };
                TxOut { value: self.env.value(100 + i), script_pubkey: spk }
            })
            .collect()
    }
    pub fn spec_outputs(&self) -> Vec<TxOut> {
        self.outputs(&|i| self.env.p2tr(st(&self.e["derived"][i])))
    }
    pub fn tx(&self, order: &[usize], outs: Vec<TxOut>) -> (Transaction, Vec<TxOut>) {
        (
            hcore::tx(order.iter().map(|i| self.txins[*i].clone()).collect(), outs),
            order.iter().map(|i| self.prevouts[*i].clone()).collect(),
        )
    }
    pub fn secret_point(&self, what: &str) -> PublicKey {
        self.env.point(&self.secret(what))
    }
    pub fn secret(&self, what: &str) -> SecretKey {
        SecretKey::from_slice(&self.env.bytes(st(&self.e[what]))).unwrap()
    }
}

pub fn perm(n: usize, r: &mut Rng) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    r.shuffle(&mut v);
    v
}

/// What the sender's map says for the i-th recipient, in order of occurrence.
pub fn by_pay(codes: &[SilentPaymentCode], m: &HashMap<SilentPaymentCode, Vec<bitcoin::XOnlyPublicKey>>) -> Option<Vec<[u8; 32]>> {
    let mut seen: HashMap<&SilentPaymentCode, usize> = HashMap::new();
    let mut out = vec![];
    for c in codes {
        let n = seen.entry(c).or_default();
        out.push(m.get(c)?.get(*n)?.serialize());
        *n += 1;
    }
    (m.values().map(|v| v.len()).sum::<usize>() == codes.len()).then_some(out)
}
pub fn spk_of_x(x: &[u8; 32]) -> ScriptBuf {
    let mut v = vec![0x51, 0x20];
    v.extend(x);
    ScriptBuf::from_bytes(v)
}
pub fn xs_of(env: &Env, sk: &SecretKey) -> Vec<u8> {
    env.point(sk).serialize()[1..].to_vec()
}

pub fn check_report(w: &World, r: &mut Report, wi: usize, tx: &Transaction, f: &SpOut) -> bool {
    let op: OutPoint = f.outpoint;
    let txid = tx.compute_txid();
    let mut ok = r.eq(w.s, "reported transaction", &txid, &op.txid);
    let Some(o) = tx.output.get(op.vout as usize) else {
        r.bad(w.s, "reported output exists", "an output of the transaction".into(), format!("{op}"));
        return false;
    };
    ok &= r.eq(w.s, "reported script", &o.script_pubkey, &f.script_pubkey);
    ok &= r.eq(w.s, "reported amount", &o.value, &f.amount);
    let sk = w.wallets[wi].spend.add_tweak(&Scalar::from(f.tweak)).ok();
    ok &= r.eq(
        w.s,
        "spend secret plus tweak controls the output",
        &hcore::hex(&o.script_pubkey.as_bytes()[2..]),
        &sk.map(|k| hcore::hex(&xs_of(&w.env, &k))).unwrap_or_default(),
    );
    ok
}

fn pairs(fs: &[SpOut]) -> BTreeSet<(u32, Option<u32>)> {
    fs.iter().map(|f| (f.outpoint.vout, f.label)).collect()
}
fn expected_pairs(alts: &Value) -> Vec<BTreeSet<(u32, Option<u32>)>> {
    arr(alts)
        .iter()
        .map(|a| {
            arr(a)
                .iter()
                .map(|x| (x["out"].as_u64().unwrap() as u32 - 1, st(&x["label"]).parse().ok()))
                .collect()
        })
        .collect()
}

/// C01: the code's own sender output is what the code's own scanner reports.
pub fn agreement(w: &World, r: &mut Report, rng: &mut Rng) {
    if !w.ok() {
        return;
    }
    r.count("transactions");
    let order = perm(w.txins.len(), rng);
    let sender = guard(|| -> Result<_, String> {
        let lm = w.lexmin(&order)?;
        let mut keys = w.sender_keys();
        rng.shuffle(&mut keys);
        let ps = create_silentpayment_partial_secret(&lm, &keys).map_err(|e| e.to_string())?;
        let codes: Vec<_> = (0..arr(&w.s["pays"]).len()).map(|i| w.code(i)).collect();
        by_pay(&codes, &create_silentpayment_scriptpubkeys(ps, &codes)).ok_or("derived outputs do not match the recipients".to_string())
    });
    let xs = match sender {
        Ok(Ok(x)) => x,
        Ok(Err(e)) | Err(e) => {
            r.bad(w.s, "deriving the outputs succeeds", "Ok".into(), e);
            return;
        }
    };
    let outs = w.outputs(&|i| spk_of_x(&xs[i]));
    let (tx, prev) = w.tx(&perm(w.txins.len(), rng), outs);
    for wi in 0..w.wallets.len() {
        let sc = w.scanner(wi);
        match guard(|| sc.scan_tx(&tx, &prev).map_err(|e| e.to_string())) {
            Ok(Ok(found)) => {
                r.count(if found.is_empty() { "scans without payment" } else { "scans with payment" });
                for f in &found {
                    if f.label.is_some() {
                        r.count("labelled payments");
                    }
                    check_report(w, r, wi, &tx, f);
                }
                let exp = expected_pairs(&w.e["scans"][wi]);
                let act = pairs(&found);
                r.eq(w.s, "number of reports", &act.len(), &found.len());
                r.comparisons += 1;
                if !exp.contains(&act) {
                    r.bad(w.s, &format!("outputs (index, label) reported to wallet {}", wi + 1), format!("{exp:?}"), format!("{act:?}"));
                }
            }
            Ok(Err(e)) | Err(e) => r.bad(w.s, "scanning succeeds", "Ok".into(), e),
        }
    }
}

type Full = BTreeSet<(u32, Option<u32>, String)>;
fn expected_full(w: &World, alts: &Value) -> Vec<Full> {
    arr(alts)
        .iter()
        .map(|a| {
            arr(a)
                .iter()
                .map(|x| {
                    (x["out"].as_u64().unwrap() as u32 - 1, st(&x["label"]).parse().ok(), hcore::hex(&w.env.bytes(st(&x["tweak"]))))
                })
                .collect()
        })
        .collect()
}

/// C02: hostile outputs, scanned through both entry points.
pub fn soundness(w: &World, r: &mut Report, rng: &mut Rng) {
    if !w.ok() {
        return;
    }
    let (tx, prev) = w.tx(&perm(w.txins.len(), rng), w.spec_outputs());
    for wi in 0..w.wallets.len() {
        let sc = w.scanner(wi);
        let wal = &w.wallets[wi];
        let exp = expected_full(w, &w.e["scans"][wi]);
        // the shared secret as BIP352 prescribes it, computed here
        let a = w.secret("secret");
        let ecdh = w.env.point(&a.mul_tweak(&Scalar::from(wal.scan)).unwrap());
        let runs: [(&str, Result<Result<Vec<SpOut>, String>, String>); 2] = [
            ("scan_tx", guard(|| sc.scan_tx(&tx, &prev).map_err(|e| e.to_string()))),
            (
                "scan_txouts",
                guard(|| {
                    scan_txouts(w.env.point(&wal.spend), &label_table(&w.env, &wal.scan, &wal.labels), &tx, ecdh)
                        .map_err(|e| e.to_string())
                }),
            ),
        ];
        for (name, res) in runs {
            match res {
                Ok(Ok(found)) => {
                    r.count(if found.is_empty() { "scans reporting nothing" } else { "scans reporting outputs" });
                    for f in &found {
                        check_report(w, r, wi, &tx, f);
                    }
                    let act: Full = found
                        .iter()
                        .map(|f| (f.outpoint.vout, f.label, hcore::hex(&f.tweak.secret_bytes())))
                        .collect();
                    r.eq(w.s, "every output reported once", &found.len(), &found.iter().map(|f| f.outpoint).collect::<BTreeSet<_>>().len());
                    r.comparisons += 1;
                    if !exp.contains(&act) {
                        r.bad(w.s, &format!("{name} for wallet {}", wi + 1), format!("one of {exp:?}"), format!("{act:?}"));
                    }
                }
                Ok(Err(e)) | Err(e) => r.bad(w.s, &format!("{name} succeeds"), "Ok".into(), e),
            }
        }
    }
}

/// C03: the sender's two primitives.
pub fn sender(w: &World, r: &mut Report, rng: &mut Rng) {
    let keys: Vec<(ScriptBuf, SecretKey)> = arr(&w.s["skeys"])
        .iter()
        .map(|x| (w.env.script(&w.s["keys"], &x["spk"]), w.key(st(&x["key"]))))
        .collect();
    let lm = hcore::op_to_bytes(&w.txins[0].previous_output);
    let want = st(&w.e["sstatus"]);
    r.count(&format!("sender status {want}"));
    for round in 0..3 {
        let mut ks = keys.clone();
        if round > 0 {
            rng.shuffle(&mut ks);
        }
        let res = guard(|| create_silentpayment_partial_secret(&lm, &ks).map_err(|e| e.to_string()));
        match (want, res) {
            ("ok", Ok(Ok(sk))) => {
                r.eq(w.s, "partial secret", &hcore::hex(&w.env.bytes(st(&w.e["ssecret"]))), &hcore::hex(&sk.secret_bytes()));
            }
            ("ok", Ok(Err(e)) | Err(e)) => r.bad(w.s, "partial secret", "a secret".into(), e),
            (_, Ok(Err(_))) => r.comparisons += 1,
            (_, Ok(Ok(_))) => r.bad(w.s, "derivation is refused", format!("an error ({want})"), "a secret".into()),
            (_, Err(p)) => r.bad(w.s, "derivation is refused without a panic", "an error".into(), p),
        }
    }
    if want != "ok" {
        return;
    }
    let secret = w.secret("ssecret");
    let n = arr(&w.s["pays"]).len();
    let codes: Vec<SilentPaymentCode> = (0..n)
        .map(|i| {
            let c = &w.e["codes"][i];
            let pk = |t: &Value| PublicKey::from_slice(&w.env.bytes(st(t))).unwrap();
            SilentPaymentCode::new_v0(pk(&c[0]), pk(&c[1]), w.code(i).network)
        })
        .collect();
    // the specification's order, and one where codes of different scan keys are interleaved anew
    let expected: Vec<String> = (0..n).map(|i| hcore::hex(&w.env.bytes(st(&w.e["derived"][i])))).collect();
    let mut orders: Vec<Vec<usize>> = vec![(0..n).collect()];
    let mut per: BTreeMap<Vec<u8>, Vec<usize>> = BTreeMap::new();
    for (i, c) in codes.iter().enumerate() {
        per.entry(c.scan.serialize().to_vec()).or_default().push(i);
    }
    let mut slots: Vec<Vec<u8>> = codes.iter().map(|c| c.scan.serialize().to_vec()).collect();
    rng.shuffle(&mut slots);
    let mut next: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    orders.push(
        slots
            .iter()
            .map(|s| {
                let k = next.entry(s.clone()).or_default();
                *k += 1;
                per[s][*k - 1]
            })
            .collect(),
    );
    for ord in orders {
        let cs: Vec<_> = ord.iter().map(|i| codes[*i].clone()).collect();
        match guard(|| create_silentpayment_scriptpubkeys(secret, &cs)) {
            Ok(m) => match by_pay(&cs, &m) {
                Some(xs) => {
                    r.count("recipient lists");
                    let exp: Vec<&String> = ord.iter().map(|i| &expected[*i]).collect();
                    let act: Vec<String> = xs.iter().map(|x| hcore::hex(x)).collect();
                    r.eq(w.s, "derived keys per recipient", &exp, &act.iter().collect());
                }
                None => r.bad(w.s, "one key per recipient", format!("{n}"), format!("{:?}", m.values().map(|v| v.len()).collect::<Vec<_>>())),
            },
            Err(p) => r.bad(w.s, "deriving keys", "keys".into(), p),
        }
    }
}

fn kind(k: SpInputs) -> &'static str {
    match k {
        SpInputs::Tr => "tr",
        SpInputs::Wpkh => "wpkh",
        SpInputs::ShWpkh => "sh",
        SpInputs::Pkh => "pkh",
    }
}

/// C04: one input at a time, then the whole transaction.
pub fn eligibility(w: &World, r: &mut Report, _rng: &mut Rng) {
    for i in 0..w.txins.len() {
        let e = &w.e["elig"][i];
        let res = guard(|| extract_pubkey(w.txins[i].clone(), &w.prevouts[i].script_pubkey));
        let name = format!("key of input {i}");
        match res {
            Err(p) => r.bad(w.s, &name, "no panic".into(), p),
            Ok(got) => match st(&e["key"]) {
                "any" => {
                    r.count("inputs beyond consensus");
                    r.comparisons += 1
                }
                "none" => {
                    r.count("ineligible inputs");
                    r.eq(w.s, &name, &None, &got.map(|g| g.1));
                }
                k => {
                    r.count(&format!("eligible {}", st(&e["kind"])));
                    let mut p = w.env.point(&w.key(k));
                    if e["kind"] == "tr" {
                        p = bitcoin::XOnlyPublicKey::from(p).public_key(bitcoin::key::Parity::Even);
                    }
                    r.eq(w.s, &name, &Some((st(&e["kind"]), p)), &got.map(|g| (kind(g.0), g.1)));
                }
            },
        }
    }
    tweak_status(w, r, &(0..w.txins.len()).collect::<Vec<_>>());
}

fn tweak_status(w: &World, r: &mut Report, order: &[usize]) -> Option<PublicKey> {
    let (tx, prev) = w.tx(order, vec![]);
    let res = guard(|| compute_tweak_data(&tx, &prev).map_err(|e| e.to_string()));
    let want = st(&w.e["status"]);
    r.count(&format!("transactions with status {want}"));
    match (want, res) {
        (_, Err(p)) => {
            r.bad(w.s, "tweak data", "no panic".into(), p);
            None
        }
        ("ok", Ok(Ok(p))) => {
            r.eq(w.s, "tweak data", &w.secret_point("secret"), &p);
            Some(p)
        }
        ("ok", Ok(Err(e))) => {
            r.bad(w.s, "tweak data", "a point".into(), e);
            None
        }
        ("any", _) => None,
        (_, Ok(Ok(p))) => {
            r.bad(w.s, "tweak data", format!("an error ({want})"), format!("{p}"));
            None
        }
        (_, Ok(Err(_))) => {
            r.comparisons += 1;
            None
        }
    }
}

/// C05: order of inputs, symmetry with the sender, smallest outpoint.
pub fn tweak_data(w: &World, r: &mut Report, rng: &mut Rng) {
    let n = w.txins.len();
    for round in 0..4 {
        let order: Vec<usize> = match round {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            _ => perm(n, rng),
        };
        let lm = guard(|| w.lexmin(&order));
        if n == 0 {
            r.check(w.s, "no smallest outpoint without inputs", matches!(lm, Ok(Err(_))));
        } else {
            let exp = arr(&w.s["inputs"])
                .iter()
                .map(|i| hcore::op_to_bytes(&w.env.outpoint(i)))
                .min()
                .unwrap();
            r.eq(w.s, "smallest outpoint", &Ok(Ok(exp)), &lm);
        }
        let Some(p) = tweak_status(w, r, &order) else { continue };
        let wal = &w.wallets[0];
        let mut keys = w.sender_keys();
        rng.shuffle(&mut keys);
        match guard(|| create_silentpayment_partial_secret(&w.lexmin(&order).unwrap(), &keys).map_err(|e| e.to_string())) {
            Ok(Ok(sk)) => {
                r.eq(w.s, "tweak data is the point of the sender's secret", &w.env.point(&sk), &p);
                let a = guard(|| compute_shared_secret(&wal.scan, &p));
                let b = guard(|| compute_shared_secret(&sk, &w.env.point(&wal.scan)));
                let e = w.env.point(&w.secret("secret").mul_tweak(&Scalar::from(wal.scan)).unwrap());
                r.eq(w.s, "shared secret (receiver)", &Ok(e), &a);
                r.eq(w.s, "shared secret (sender)", &Ok(e), &b);
                let (tx, prev) = w.tx(&order, vec![]);
                let c = guard(|| w.scanner(0).get_shared_secret(&tx, &prev).map_err(|e| e.to_string()));
                r.eq(w.s, "shared secret (scanner)", &Ok(Ok(e)), &c);
            }
            Ok(Err(e)) | Err(e) => r.bad(w.s, "sender's partial secret", "a secret".into(), e),
        }
    }
}

/// C16: scripts derived from the tweak alone.
pub fn light(w: &World, r: &mut Report, rng: &mut Rng) {
    if !w.ok() {
        return;
    }
    let outs = w.spec_outputs();
    let (tx, prev) = w.tx(&perm(w.txins.len(), rng), outs);
    let tweak = match guard(|| compute_tweak_data(&tx, &prev).map_err(|e| e.to_string())) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) | Err(e) => return r.bad(w.s, "tweak data", "a point".into(), e),
    };
    let spec_tweak = w.secret_point("secret");
    let have: BTreeSet<Vec<u8>> = tx.output.iter().map(|o| o.script_pubkey.to_bytes()).collect();
    for wi in 0..w.wallets.len() {
        let sc = w.scanner(wi);
        let wal = &w.wallets[wi];
        for k in 0..arr(&w.e["light"][wi]).len() {
            let exp: BTreeSet<Vec<u8>> =
                arr(&w.e["light"][wi][k]).iter().map(|x| w.env.p2tr(st(x)).to_bytes()).collect();
            match guard(|| sc.get_spks_from_tweak(&spec_tweak, k as u32)) {
                Ok(v) => {
                    r.count("derived script sets");
                    let act: Vec<Vec<u8>> = v.iter().map(|s| s.to_bytes()).collect();
                    r.eq(w.s, "one script per known label and the base one", &(wal.labels.len() + 1), &act.len());
                    r.eq(w.s, &format!("scripts at index {k} (scanner)"), &exp, &act.into_iter().collect());
                }
                Err(p) => r.bad(w.s, "deriving scripts", "scripts".into(), p),
            }
        }
        let mut idx = indexer::v2::SpIndexerV2::<indexer::bdk_chain::ConfirmationBlockTime>::new(wal.scan, w.env.point(&wal.spend));
        for l in &wal.labels {
            let _ = idx.add_label(*l);
        }
        let exp0: BTreeSet<Vec<u8>> =
            arr(&w.e["light"][wi][0]).iter().map(|x| w.env.p2tr(st(x)).to_bytes()).collect();
        match guard(|| idx.derive_spks_for_tweak(&tweak)) {
            Ok(v) => {
                r.eq(w.s, "one script per known label and the base one (indexer)", &(wal.labels.len() + 1), &v.len());
                let act: BTreeSet<Vec<u8>> = v.iter().map(|s| s.to_vec()).collect();
                r.eq(w.s, "scripts (indexer)", &exp0, &act);
                let paid = arr(&w.e["scans"][wi]).iter().any(|a| !arr(a).is_empty());
                r.count(if paid { "paying transactions" } else { "other transactions" });
                r.eq(w.s, "a derived script occurs exactly when the transaction pays", &paid, &act.iter().any(|s| have.contains(s)));
                let found = guard(|| sc.scan_tx(&tx, &prev).map(|f| !f.is_empty()).map_err(|e| e.to_string()));
                r.eq(w.s, "scanning agrees", &Ok(Ok(paid)), &found);
            }
            Err(p) => r.bad(w.s, "deriving scripts (indexer)", "scripts".into(), p),
        }
    }
}

/// C20: the two spending helpers.
pub fn helpers(w: &World, r: &mut Report, rng: &mut Rng, hd: Option<&crate::hd::Hd>) {
    use bdk_sp::send::{bip32::XprivSilentPaymentSender, bip352::SpSender};
    let n = w.txins.len();
    let order = perm(n, rng);
    let codes: Vec<SilentPaymentCode> = (0..arr(&w.s["pays"]).len())
        .map(|i| {
            let c = &w.e["codes"][i];
            let pk = |t: &Value| PublicKey::from_slice(&w.env.bytes(st(t))).unwrap();
            SilentPaymentCode::new_v0(pk(&c[0]), pk(&c[1]), w.code(i).network)
        })
        .collect();
    let want = st(&w.e["sstatus"]);
    let res = match hd {
        Some(h) => {
            r.count("HD senders");
            let ins: Vec<_> = order
                .iter()
                .map(|i| {
                    let key = st(&w.s["skeys"][*i]["key"]);
                    let base = st(&w.s["keys"][key]["base"]);
                    (w.txins[*i].previous_output, (w.prevouts[*i].script_pubkey.clone(), h.paths[base].clone()))
                })
                .collect();
            guard(|| XprivSilentPaymentSender::new(h.xpriv).send_to(&ins, &codes).map_err(|e| e.to_string()))
        }
        None => {
            r.count("received-output senders");
            let own = w.s["keys"].as_object().unwrap().values().next().map(|d| {
                let k = w.env.base("own");
                if d["neg"].as_bool().unwrap() { k.negate() } else { k }
            }).unwrap_or(w.env.base("own"));
            let ins: Vec<SpOut> = order
                .iter()
                .map(|i| {
                    let key = st(&w.s["skeys"][*i]["key"]);
                    SpOut {
                        outpoint: w.txins[*i].previous_output,
                        tweak: w.env.base(st(&w.s["keys"][key]["arg"])),
                        script_pubkey: w.prevouts[*i].script_pubkey.clone(),
                        amount: w.prevouts[*i].value,
                        label: if rng.chance(1, 2) { None } else { Some(3) },
                    }
                })
                .collect();
            guard(|| SpSender::new(own).send_to(&ins, &codes).map_err(|e| e.to_string()))
        }
    };
    r.count(&format!("status {want}"));
    match (want, res) {
        (_, Err(p)) => r.bad(w.s, "sending", "no panic".into(), p),
        ("ok", Ok(Ok(m))) => match by_pay(&codes, &m) {
            Some(xs) => {
                let exp: Vec<String> = arr(&w.e["derived"]).iter().map(|x| hcore::hex(&w.env.bytes(st(x)))).collect();
                let act: Vec<String> = xs.iter().map(|x| hcore::hex(x)).collect();
                r.eq(w.s, "derived keys per recipient", &exp, &act);
            }
            None => r.bad(w.s, "one key per recipient", format!("{}", codes.len()), format!("{m:?}")),
        },
        ("ok", Ok(Err(e))) => r.bad(w.s, "sending", "keys".into(), e),
        (_, Ok(Ok(_))) => r.bad(w.s, "sending is refused", format!("an error ({want})"), "keys".into()),
        (_, Ok(Err(_))) => r.comparisons += 1,
    }
}

/// Three received outputs whose keys cancel: the third secret is minus the sum of the others.
pub fn helper_cancel(seed: u64, r: &mut Report) {
    use bdk_sp::send::bip352::SpSender;
    let mut done = 0;
    for i in 0..200 {
        let env = Env::new(seed, &format!("cancel{i}"));
        let own = env.base("own");
        let even = |t: &SecretKey| {
            let k = own.add_tweak(&Scalar::from(*t)).unwrap();
            if env.is_even(&k) { k } else { k.negate() }
        };
        let (t1, t2) = (env.base("t1"), env.base("t2"));
        let sum = even(&t1).add_tweak(&Scalar::from(even(&t2))).unwrap();
        if env.is_even(&sum) {
            continue; // its taproot key would count with the same sign
        }
        let t3 = sum.add_tweak(&Scalar::from(own.negate())).unwrap();
        let case = hcore::serde_json::json!({"cancelling received outputs": i});
        let mk = |n: u8, t: SecretKey| SpOut {
            outpoint: OutPoint::new(bitcoin::hashes::Hash::from_byte_array([n; 32]), n as u32),
            tweak: t,
            script_pubkey: ScriptBuf::new(),
            amount: bitcoin::Amount::from_sat(5),
            label: None,
        };
        let code = SilentPaymentCode::new_v0(env.point(&env.base("b")), env.point(&env.base("s")), Network::Regtest);
        let res = guard(|| SpSender::new(own).send_to(&[mk(1, t1), mk(2, t2), mk(3, t3)], &[code.clone()]).map(|_| ()).map_err(|e| e.to_string()));
        r.count("cancelling input lists");
        r.check(&case, "cancelling inputs are refused", matches!(res, Ok(Err(_))));
        let res = guard(|| SpSender::new(own).send_to(&[mk(1, t1), mk(2, t2)], &[code.clone()]).map(|_| ()).map_err(|e| e.to_string()));
        r.check(&case, "the others are accepted", matches!(res, Ok(Ok(_))));
        done += 1;
        if done == 20 {
            break;
        }
    }
}
