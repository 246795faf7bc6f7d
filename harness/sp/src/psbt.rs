//! C08, C09, C10: silent payments in PSBTs against SPPsbt.tla.
use crate::gen::{Gen, LABELS};
use crate::proto::{arr, check_report, st, World};
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::scan::Scanner;
use bdk_sp::send::psbt::{
    derive_sp,
    sign::{add_sp_data_to_input, sign_sp, SPEND_PK_SUBTYPE},
};
use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, KeySource};
use bitcoin::hashes::Hash;
use bitcoin::psbt::{raw::ProprietaryKey, GetKey, KeyRequest, Psbt};
use bitcoin::secp256k1::{Message, PublicKey, Scalar, Secp256k1, SecretKey, Signing};
use bitcoin::sighash::{Prevouts, SighashCache};
use bitcoin::{Amount, Network, PrivateKey, ScriptBuf, TapNodeHash, Transaction, TxOut, Witness, XOnlyPublicKey};
use hcore::serde_json::{json, Value};
use hcore::{guard, hex, Env, Report, Rng};
use std::collections::{BTreeMap, BTreeSet, HashMap};

// ------------------------------------------------------------------ generation
fn answer(g: &mut Gen, right: &str, wrong: &str) -> (String, String) {
    let r = |s: &str| s.to_string();
    match g.rng.below(6) {
        0 | 1 => (r(right), r("none")),
        2 => (r("none"), r(right)),
        3 => (r("err"), r(right)),
        4 => (r(right), r(wrong)),
        _ => (r(right), r("err")),
    }
}
fn bad_answer(g: &mut Gen, right: &str, wrong: &str) -> (String, String) {
    let r = |s: &str| s.to_string();
    match g.rng.below(6) {
        0 | 1 => (r("none"), r("none")),
        2 => (r("err"), r("none")),
        3 => (r("none"), r("err")),
        4 => (r(wrong), r(right)),
        _ => (r("none"), r(wrong)),
    }
}

/// Script of a previous output at generation time, to fix the outpoint of inputs whose previous
/// transaction is carried along.
fn prev_tx(env: &Env, keys: &Value, inp: &Value) -> Transaction {
    let n = inp["prevn"].as_u64().unwrap() as usize;
    let vout = inp["prevvout"].as_u64().unwrap() as usize;
    let name = st(&inp["op"]);
    let out = (0..n)
        .map(|i| TxOut {
            value: Amount::from_sat(1000 + i as u64),
            script_pubkey: if i == vout {
                env.script(keys, &inp["spk"])
            } else {
                ScriptBuf::from_bytes(env.blob(&format!("prev/{name}/{i}"), 20))
            },
        })
        .collect();
    let txin = bitcoin::TxIn {
        previous_output: bitcoin::OutPoint::new(bitcoin::Txid::from_byte_array(env.blob(&format!("prev/{name}"), 32).try_into().unwrap()), 0),
        ..Default::default()
    };
    hcore::tx(vec![txin], out)
}

pub fn generate(prop: &str, seed: u64, n: usize) -> Vec<Value> {
    (0..n).map(|id| one(prop, seed, id)).collect()
}

fn one(prop: &str, seed: u64, id: usize) -> Value {
    let env = Env::new(seed, &format!("{prop}/{id}"));
    let mut g = Gen::new(Rng::new(seed, &format!("{prop}/{id}")));
    let faulty = prop == "C09" && id % 8 != 0;
    let signing = prop == "C10";
    let spends = [g.key_with("own1", g.rng.clone().chance(1, 2), "none", ""), g.key_with("own2", g.rng.clone().chance(2, 3), "none", "")];
    let have = [*g.rng.pick(&["yes", "yes", "yes", "no", "err"]), *g.rng.pick(&["yes", "no"])];
    let have = if prop == "C08" { ["yes", "yes"] } else { have };
    // inputs
    if prop != "C10" && g.rng.chance(1, if faulty { 6 } else { 14 }) {
        let total = faulty && g.rng.chance(1, 2);
        g.cancelling(total)
    } else {
        let n = g.rng.range(if signing { 1 } else if faulty && g.rng.clone().chance(1, 20) { 0 } else { 1 }, 4);
        // a few transactions have many inputs
        let n = if id % 60 == 7 { *g.rng.pick(if signing { &[20, 40, 260] } else { &[18, 24, 40] }) } else { n };
        for _ in 0..n {
            let op = g.fresh_op();
            let rec = g.rng.chance(if signing { 3 } else { 1 }, if signing { 4 } else { 4 });
            if rec {
                let s = g.rng.below(2);
                let neg = g.keys[&spends[s]]["neg"].as_bool().unwrap();
                let t = if g.rng.chance(1, 6) { "tx".to_string() } else { format!("t{}", g.nk + 1) };
                let k = g.key_with(&format!("own{}", s + 1), neg, "sp", &t);
                // the untweaked key is another one
                let k = if signing && g.rng.chance(1, 12) { spends[s].clone() } else { k };
                let sig = g.j(64);
                g.push_input(op, Gen::spk_tr(&k), json!([]), json!([[sig]]));
                let last = g.inputs.last_mut().unwrap();
                last["own"] = json!(s);
                last["t"] = json!(t);
            } else {
                let w = g.rng.below(5);
                let exotic = g.rng.chance(1, 4);
                if exotic {
                    g.make_inputs(1, 100, if faulty { 10 } else { 0 });
                } else {
                    let (a, s, c, _) = g.ordinary(w);
                    g.push_input(op, a, s, c);
                }
            }
        }
    }
    // what the psbt holds
    let nin = g.inputs.len();
    let fault_at = if faulty && nin > 0 { Some(g.rng.below(nin)) } else { None };
    for i in 0..nin {
        let mut inp = g.inputs[i].clone();
        let is_rec = inp["own"].is_u64();
        let has = |v: &Value| !v.as_array().unwrap().is_empty();
        let mut finss = has(&inp["ss"]);
        let mut finwit = has(&inp["wit"]);
        if !finss && !finwit {
            // nothing to publish it with: an empty script signature or witness
            if g.rng.chance(1, 2) { finss = true } else { finwit = true }
        }
        let mut utxo = *g.rng.pick(&["wit", "wit", "non", "both"]);
        let mut records = vec![];
        let mut origins = vec![];
        let mut mr = String::new();
        // the key the script is made of
        let spk = inp["spk"].as_array().unwrap().clone();
        let keyed = spk.iter().find(|c| ["x", "h160pk", "h160rs"].contains(&c[1].as_str().unwrap()));
        let is_tr = spk.len() == 3 && spk[0][2] == "51";
        if is_rec {
            let s = inp["own"].as_u64().unwrap() as usize;
            let rec = json!({"spend": spends[s], "tweak": inp["t"], "have": have[s], "as": ""});
            records.push(rec);
            if utxo == "non" {
                utxo = "wit";
            }
            if g.rng.chance(1, 3) && have[s] == "yes" {
                finwit = false;
            }
        } else if let Some(c) = keyed {
            let k = c[2].as_str().unwrap().to_string();
            let d = g.keys[&k].clone();
            let wrong = g.key();
            let (base, neg, tw) = (st(&d["base"]).to_string(), d["neg"].as_bool().unwrap(), st(&d["tweak"]).to_string());
            let right = if is_tr {
                if tw == "taproot" {
                    mr = st(&d["arg"]).to_string();
                }
                g.key_with(&base, neg, "none", "") // internal key
            } else {
                k.clone()
            };
            let (bip, direct) = answer(&mut g, &right, &wrong);
            origins.push(json!({"key": right, "bip": bip, "direct": direct}));
            if g.rng.chance(1, 5) {
                // another key the provider does not have, or does
                let o = g.key();
                let (bip, direct) = if g.rng.chance(3, 4) { ("none", "none") } else { (o.as_str(), "none") };
                origins.push(json!({"key": o, "bip": bip, "direct": direct}));
            }
            if is_tr && tw == "none" {
                // nobody knows an internal key; spend it as a silent payment or not at all
                if g.rng.chance(4, 5) {
                    records.push(json!({"spend": right, "tweak": "zero", "have": "yes", "as": ""}));
                    if utxo == "non" {
                        utxo = "both";
                    }
                }
            }
            if fault_at == Some(i) {
                match g.rng.below(8) {
                    0 => origins.clear(),
                    1 | 2 | 3 => {
                        let (bip, direct) = bad_answer(&mut g, &right, &wrong);
                        origins = vec![json!({"key": right, "bip": bip, "direct": direct})];
                    }
                    4 if is_tr => mr = if mr.is_empty() { "rootx".into() } else { String::new() },
                    5 => {
                        finss = false;
                        finwit = false
                    }
                    6 => utxo = "none",
                    _ => (),
                }
                records.clear();
            }
        } else if fault_at == Some(i) {
            match g.rng.below(3) {
                0 => utxo = "none",
                1 => {
                    finss = false;
                    finwit = false
                }
                _ => utxo = "index",
            }
        }
        if signing || g.rng.chance(1, 10) {
            // other records
            for _ in 0..g.rng.below(3) {
                let t = if is_rec { inp["t"].clone() } else { json!("tx") };
                let s = g.rng.below(2);
                let r = match g.rng.below(9) {
                    0 => json!({"spend": "junk", "tweak": t, "have": "yes", "as": ""}),
                    1 => json!({"spend": spends[0], "tweak": "short", "have": have[0], "as": ""}),
                    2 => json!({"spend": spends[1], "tweak": "big", "have": have[1], "as": ""}),
                    3 => json!({"spend": spends[0], "tweak": "zero", "have": have[0], "as": ""}),
                    4 => {
                        let k = g.key();
                        json!({"spend": k, "tweak": t, "have": "yes", "as": ""})
                    }
                    5 => json!({"spend": spends[s], "tweak": "minus", "have": have[s], "as": ""}),
                    6 => {
                        // what would be a record, under another name
                        let a = *g.rng.pick(&["prefix", "subtype"]);
                        records.first().filter(|_| g.rng.chance(2, 3)).cloned().map(|mut r| {
                            r["as"] = json!(a);
                            r
                        }).unwrap_or(json!({"spend": spends[s], "tweak": t, "have": have[s], "as": a}))
                    }
                    _ => json!({"spend": spends[s], "tweak": *g.rng.pick(&["ty", "tz"]), "have": have[s], "as": ""}),
                };
                // one record per spend key
                if !records.iter().any(|x: &Value| x["spend"] == r["spend"] && x["as"] == r["as"]) {
                    records.push(r);
                }
            }
            let other = records.iter().any(|x: &Value| x["as"] != "");
            if is_rec && g.rng.chance(1, if other { 3 } else { 8 }) {
                records.remove(0);
            }
        }
        if (signing && is_rec && g.rng.chance(1, 25)) || (prop == "C09" && g.rng.chance(1, 60)) {
            utxo = *g.rng.pick(&["none", "index", "non"]);
        }
        let o = inp.as_object_mut().unwrap();
        o.remove("own");
        o.remove("t");
        o.insert("utxo".into(), json!(utxo));
        o.insert("finss".into(), json!(finss));
        o.insert("finwit".into(), json!(finwit));
        o.insert("mr".into(), json!(mr));
        o.insert("origins".into(), json!(origins));
        o.insert("records".into(), json!(records));
        o.insert("sig".into(), json!(signing && g.rng.chance(1, 6)));
        let pn = g.rng.range(1, 4);
        o.insert("prevn".into(), json!(pn));
        o.insert("prevvout".into(), json!(if utxo == "index" { pn + g.rng.below(2) } else { g.rng.below(pn) }));
        g.inputs[i] = inp;
    }
    // one answer per key, also when several inputs have it
    let mut direct: BTreeMap<String, Value> = BTreeMap::new();
    for i in 0..nin {
        let mut origins = g.inputs[i]["origins"].clone();
        for o in origins.as_array_mut().unwrap() {
            let k = &g.keys[o["key"].as_str().unwrap()];
            let d = direct.entry(format!("{}{}{}{}", k["base"], k["neg"], k["tweak"], k["arg"])).or_insert(o["direct"].clone());
            o["direct"] = d.clone();
        }
        g.inputs[i]["origins"] = origins;
    }
    // outpoints
    for i in 0..nin {
        let inp = g.inputs[i].clone();
        if inp["utxo"] != "wit" {
            let t = prev_tx(&env, &Value::Object(g.keys.clone()), &inp);
            let op = bitcoin::OutPoint::new(t.compute_txid(), inp["prevvout"].as_u64().unwrap() as u32);
            g.inputs[i]["bytes"] = json!(hcore::op_to_bytes(&op).to_vec());
        }
    }
    // recipients
    let nw = g.rng.range(1, 3);
    let ws: Vec<Value> = (1..=nw)
        .map(|i| {
            json!({"scan": format!("b{i}"), "scanneg": g.rng.chance(1, 2), "spend": format!("s{i}"), "spendneg": g.rng.chance(1, 2), "labels": LABELS})
        })
        .collect();
    let nc = if signing { g.rng.range(0, 2) } else { g.rng.range(1, 4) };
    let mut codes: Vec<Value> = vec![];
    for _ in 0..nc {
        let label = if g.rng.chance(1, 2) { "" } else { *g.rng.pick(&LABELS[..4]) };
        let c = json!({"w": g.rng.range(1, nw), "label": label});
        if !codes.contains(&c) {
            codes.push(c);
        }
    }
    let nc = codes.len();
    let mut recips: Vec<usize> = vec![];
    let mut outs: Vec<Value> = vec![];
    for c in 1..=nc {
        let n = g.rng.range(1, 3);
        let absent = g.rng.chance(1, 6);
        for _ in 0..n {
            recips.push(c);
            if !absent {
                outs.push(json!({"t": "ph", "c": c}));
            }
        }
        if g.rng.chance(1, if faulty { 5 } else { 25 }) && prop != "C08" {
            // counts that do not fit
            if g.rng.chance(1, 2) { recips.push(c) } else { outs.push(json!({"t": "ph", "c": c})) }
        }
        if g.rng.chance(1, 10) {
            // an output for a code that is not listed
            recips.retain(|x| *x != c);
        }
    }
    for _ in 0..g.rng.below(3) {
        outs.push(json!({"t": "other", "spk": *g.rng.pick(&["wpkh", "opret", "tr", "empty"])}));
    }
    g.rng.shuffle(&mut recips);
    g.rng.shuffle(&mut outs);
    json!({"id": id, "keys": Value::Object(g.keys), "inputs": g.inputs, "wallets": ws, "codes": codes, "recips": recips, "outs": outs})
}

// ------------------------------------------------------------------ replay
#[derive(Default)]
struct Keys {
    bip: HashMap<KeySource, Result<Option<SecretKey>, ()>>,
    pk: HashMap<PublicKey, Result<Option<SecretKey>, ()>>,
    xonly: HashMap<XOnlyPublicKey, Result<Option<SecretKey>, ()>>,
}
impl GetKey for Keys {
    type Error = String;
    fn get_key<C: Signing>(&self, r: KeyRequest, _: &Secp256k1<C>) -> Result<Option<PrivateKey>, String> {
        let a = match r {
            KeyRequest::Bip32(s) => self.bip.get(&s).cloned(),
            KeyRequest::Pubkey(p) => self.pk.get(&p.inner).cloned(),
            KeyRequest::XOnlyPubkey(x) => self.xonly.get(&x).cloned(),
            _ => None,
        };
        match a {
            None => Ok(None),
            Some(Err(())) => Err("no answer".into()),
            Some(Ok(k)) => Ok(k.map(|k| PrivateKey::new(k, Network::Regtest))),
        }
    }
}

fn build(w: &World) -> (Psbt, Keys, Vec<SilentPaymentCode>, Vec<TxOut>) {
    let (s, env) = (w.s, &w.env);
    let pk = |t: &Value| PublicKey::from_slice(&env.bytes(st(t))).unwrap();
    let codes: Vec<SilentPaymentCode> = arr(&w.e["codes"]).iter().map(|c| SilentPaymentCode::new_v0(pk(&c[0]), pk(&c[1]), Network::Regtest)).collect();
    let outs: Vec<TxOut> = arr(&s["outs"])
        .iter()
        .enumerate()
        .map(|(i, o)| TxOut {
            value: env.value(100 + i),
            script_pubkey: if o["t"] == "ph" {
                codes[o["c"].as_u64().unwrap() as usize - 1].get_placeholder_p2tr_spk()
            } else {
                match st(&o["spk"]) {
                    "wpkh" => ScriptBuf::from_bytes([vec![0, 20], env.blob("ow", 20)].concat()),
                    "opret" => ScriptBuf::from_bytes(vec![0x6a, 1, 7]),
                    "tr" => crate::proto::spk_of_x(&env.point(&env.base(&format!("dec{i}"))).serialize()[1..].try_into().unwrap()),
                    _ => ScriptBuf::new(),
                }
            },
        })
        .collect();
    let mut unsigned = hcore::tx(w.txins.clone(), outs);
    for i in &mut unsigned.input {
        i.script_sig = ScriptBuf::new();
        i.witness = Witness::new();
    }
    let mut psbt = Psbt::from_unsigned_tx(unsigned).unwrap();
    let mut keys = Keys::default();
    let ans = |a: &str| match a {
        "none" => Ok(None),
        "err" => Err(()),
        k => Ok(Some(w.key(k))),
    };
    let mut prevouts = vec![];
    for (i, inp) in arr(&s["inputs"]).iter().enumerate() {
        let p = &mut psbt.inputs[i];
        let prev = prev_tx(env, &s["keys"], inp);
        let utxo = st(&inp["utxo"]);
        let txout = if utxo == "wit" || utxo == "none" || utxo == "index" {
            w.prevouts[i].clone()
        } else {
            prev.output[inp["prevvout"].as_u64().unwrap() as usize].clone()
        };
        if utxo == "wit" || utxo == "both" {
            p.witness_utxo = Some(txout.clone());
        }
        if utxo == "non" || utxo == "both" || utxo == "index" {
            p.non_witness_utxo = Some(prev);
        }
        prevouts.push(txout);
        if inp["finss"].as_bool().unwrap() {
            p.final_script_sig = Some(w.txins[i].script_sig.clone());
        }
        if inp["finwit"].as_bool().unwrap() {
            p.final_script_witness = Some(w.txins[i].witness.clone());
        }
        if inp["mr"] != "" {
            p.tap_merkle_root = Some(TapNodeHash::from_slice(&env.blob(st(&inp["mr"]), 32)).unwrap());
        }
        let is_tr = inp["spk"].as_array().unwrap().first().is_some_and(|c| c[2] == "51");
        for (j, o) in arr(&inp["origins"]).iter().enumerate() {
            let pk = env.point(&w.key(st(&o["key"])));
            let src: KeySource = (
                Fingerprint::from([7, 7, 7, 7]),
                DerivationPath::from(vec![ChildNumber::from(i as u32), ChildNumber::from(j as u32)]),
            );
            keys.bip.insert(src.clone(), ans(st(&o["bip"])));
            if is_tr {
                keys.xonly.insert(pk.into(), ans(st(&o["direct"])));
                p.tap_key_origins.insert(pk.into(), (vec![], src));
            } else {
                keys.pk.insert(pk, ans(st(&o["direct"])));
                p.bip32_derivation.insert(pk, src);
            }
        }
        let simple = i % 2 == 0;
        for (j, r) in arr(&inp["records"]).iter().enumerate() {
            let spend = match st(&r["spend"]) {
                "junk" => match j % 3 {
                    0 => vec![],
                    1 => vec![2; 20],
                    _ => [vec![2], env.offcurve("junk").to_vec()].concat(),
                },
                k => {
                    let sk = w.key(k);
                    let pk = env.point(&sk);
                    keys.pk.insert(pk, match st(&r["have"]) {
                        "yes" => Ok(Some(sk)),
                        "no" => Ok(None),
                        _ => Err(()),
                    });
                    pk.serialize().to_vec()
                }
            };
            let tweak = match st(&r["tweak"]) {
                "short" => vec![3; [0, 31, 33][j % 3]],
                "big" => vec![0xff; 32],
                "zero" => vec![0; 32],
                "minus" => w.key(st(&r["spend"])).negate().secret_bytes().to_vec(),
                t => env.base(t).secret_bytes().to_vec(),
            };
            if r["as"] != "" {
                let pick = s["id"].as_u64().unwrap() as usize + i + j;
                let (prefix, subtype) = if r["as"] == "prefix" {
                    (["bip35", "bip3522", "", "BIP352", "bip353"][pick % 5], SPEND_PK_SUBTYPE)
                } else {
                    ("bip352", [0, 2, 3, 0x11, 0x81, 0xfe, 0xff][pick % 7])
                };
                psbt.inputs[i].proprietary.insert(ProprietaryKey { prefix: prefix.into(), subtype, key: spend }, tweak);
                continue;
            }
            if let (true, Ok(pk), Ok(t)) = (simple, PublicKey::from_slice(&spend), <[u8; 32]>::try_from(tweak.clone())) {
                if let Ok(t) = Scalar::from_be_bytes(t) {
                    add_sp_data_to_input(&mut psbt, i, pk, t);
                    continue;
                }
            }
            let k = ProprietaryKey { prefix: b"bip352".to_vec(), subtype: SPEND_PK_SUBTYPE, key: spend };
            psbt.inputs[i].proprietary.insert(k, tweak);
        }
        let p = &mut psbt.inputs[i];
        // look-alikes that are no records
        p.proprietary.insert(ProprietaryKey { prefix: b"bip352".to_vec(), subtype: SPEND_PK_SUBTYPE + 1, key: vec![1] }, vec![1]);
        p.proprietary.insert(ProprietaryKey { prefix: b"other".to_vec(), subtype: SPEND_PK_SUBTYPE, key: vec![1] }, vec![1]);
        if inp["sig"].as_bool().unwrap() {
            let kp = bitcoin::secp256k1::Keypair::from_secret_key(&env.secp, &env.base("oldsig"));
            let sig = env.secp.sign_schnorr_no_aux_rand(&Message::from_digest([9; 32]), &kp);
            p.tap_key_sig = Some(bitcoin::taproot::Signature { signature: sig, sighash_type: bitcoin::TapSighashType::All });
        }
    }
    (psbt, keys, codes, prevouts)
}

fn derive(w: &World, r: &mut Report, psbt: &mut Psbt, keys: &Keys, codes: &[SilentPaymentCode]) -> Option<bool> {
    let before = psbt.clone();
    let listed: Vec<SilentPaymentCode> = arr(&w.s["recips"]).iter().map(|c| codes[c.as_u64().unwrap() as usize - 1].clone()).collect();
    let res = guard(std::panic::AssertUnwindSafe(|| derive_sp(psbt, keys, &listed, &w.env.secp).map_err(|e| e.to_string())));
    let want = st(&w.e["res"]);
    r.count(&format!("derivation {want} {}", st(&w.e["why"])));
    match (want, res) {
        (_, Err(p)) => {
            r.bad(w.s, "derivation never panics", "a result".into(), p);
            None
        }
        ("err", Ok(Ok(()))) => {
            r.bad(w.s, "derivation is refused", format!("an error ({})", st(&w.e["why"])), "success".into());
            None
        }
        ("ok", Ok(Err(e))) => {
            r.bad(w.s, "derivation succeeds", "success".into(), e);
            None
        }
        (_, Ok(Err(_))) => {
            r.eq(w.s, "psbt unchanged after a refused derivation", &hex(&before.serialize()), &hex(&psbt.serialize()));
            Some(false)
        }
        ("free", Ok(Ok(()))) => None,
        (_, Ok(Ok(()))) => {
            // everything but the scripts of the listed placeholders is as before
            let mut undone = psbt.clone();
            let mut exp: BTreeMap<u64, BTreeSet<ScriptBuf>> = BTreeMap::new();
            let mut act = exp.clone();
            if r.eq(w.s, "number of outputs", &before.unsigned_tx.output.len(), &psbt.unsigned_tx.output.len()) {
                for (o, want) in arr(&w.e["outs"]).iter().enumerate() {
                    if want == "" {
                        continue;
                    }
                    r.count("placeholders");
                    let c = w.s["outs"][o]["c"].as_u64().unwrap();
                    exp.entry(c).or_default().insert(w.env.p2tr(st(want)));
                    act.entry(c).or_default().insert(psbt.unsigned_tx.output[o].script_pubkey.clone());
                    undone.unsigned_tx.output[o].script_pubkey = before.unsigned_tx.output[o].script_pubkey.clone();
                }
                r.eq(w.s, "derived scripts of each recipient", &exp, &act);
                r.eq(w.s, "the rest of the psbt", &hex(&before.serialize()), &hex(&undone.serialize()));
            }
            Some(true)
        }
    }
}

/// The recipients scan the transaction that would be published.
fn found(w: &World, r: &mut Report, psbt: &Psbt, prevouts: &[TxOut]) {
    let mut tx = psbt.unsigned_tx.clone();
    for (i, t) in tx.input.iter_mut().enumerate() {
        t.script_sig = w.txins[i].script_sig.clone();
        t.witness = w.txins[i].witness.clone();
    }
    for wi in 0..w.wallets.len() {
        let sc: Scanner = w.scanner(wi);
        match guard(|| sc.scan_tx(&tx, prevouts).map_err(|e| e.to_string())) {
            Ok(Ok(f)) => {
                let act: BTreeSet<(u64, String)> =
                    f.iter().map(|f| (f.outpoint.vout as u64 + 1, f.label.map(|l| l.to_string()).unwrap_or_default())).collect();
                let exp: BTreeSet<(u64, String)> = arr(&w.e["owed"][wi]).iter().map(|x| (x[0].as_u64().unwrap(), st(&x[1]).to_string())).collect();
                for x in &f {
                    check_report(w, r, wi, &tx, x);
                }
                r.count(if exp.is_empty() { "scans without payment" } else { "scans with payment" });
                r.eq(w.s, "payments found by the recipient", &exp, &act);
            }
            Ok(Err(e)) | Err(e) => r.bad(w.s, "scanning the published transaction", "reports".into(), e),
        }
    }
}

fn sign(w: &World, r: &mut Report, psbt: &mut Psbt, keys: &Keys, prevouts: &[TxOut]) -> bool {
    let before = psbt.clone();
    if let Err(p) = guard(std::panic::AssertUnwindSafe(|| sign_sp(psbt, keys, &w.env.secp))) {
        r.bad(w.s, "signing never panics", "no panic".into(), p);
        return false;
    }
    let want: BTreeSet<usize> = arr(&w.e["signed"]).iter().map(|x| x.as_u64().unwrap() as usize - 1).collect();
    let mut undone = psbt.clone();
    let mut act = BTreeSet::new();
    let tx = psbt.unsigned_tx.clone();
    for i in 0..before.inputs.len() {
        if before.inputs[i].tap_key_sig.is_none() {
            if let Some(sig) = psbt.inputs[i].tap_key_sig {
                act.insert(i);
                undone.inputs[i].tap_key_sig = None;
                if want.contains(&i) {
                    let key = XOnlyPublicKey::from_slice(&prevouts[i].script_pubkey.as_bytes()[2..]).unwrap();
                    let h = SighashCache::new(&tx).taproot_key_spend_signature_hash(i, &Prevouts::All(prevouts), sig.sighash_type).unwrap();
                    r.count("signatures");
                    if before.inputs.len() > 1 {
                        r.count("signatures among several inputs");
                    }
                    r.check(
                        w.s,
                        "signature is valid for the transaction and all its previous outputs",
                        w.env.secp.verify_schnorr(&sig.signature, &Message::from(h), &key).is_ok(),
                    );
                }
            }
        }
    }
    r.eq(w.s, "inputs signed", &want, &act);
    r.eq(w.s, "everything but the new signatures", &hex(&before.serialize()), &hex(&undone.serialize()));
    // signing again changes nothing
    let once = psbt.clone();
    let again = guard(std::panic::AssertUnwindSafe(|| sign_sp(psbt, keys, &w.env.secp)));
    r.check(w.s, "signing twice changes nothing", again.is_ok() && once == *psbt);
    !want.is_empty()
}

pub fn compare(prop: &str, w: &World, r: &mut Report, rng: &mut Rng) {
    let (mut psbt, keys, codes, prevouts) = build(w);
    if prop == "C10" {
        let mut other = psbt.clone();
        sign(w, r, &mut psbt, &keys, &prevouts);
        // signed, then derived; finalized or not
        if rng.chance(1, 2) {
            for i in &mut psbt.inputs {
                if let (Some(sig), None, None) = (i.tap_key_sig, &i.final_script_witness, &i.final_script_sig) {
                    if !i.proprietary.is_empty() && i.witness_utxo.as_ref().is_some_and(|t| t.script_pubkey.is_p2tr()) && w.e["why"] != "witness" {
                        i.final_script_witness = Some(Witness::p2tr_key_spend(&sig));
                    }
                }
            }
        }
        if derive(w, r, &mut psbt, &keys, &codes) == Some(true) {
            found(w, r, &psbt, &prevouts);
        }
        // derived, then signed
        if derive(w, r, &mut other, &keys, &codes).is_some() {
            sign(w, r, &mut other, &keys, &prevouts);
        }
        // a stranger's provider signs nothing
        let (mut p, _, _, _) = build(w);
        let b = p.clone();
        let res = guard(std::panic::AssertUnwindSafe(|| sign_sp(&mut p, &Keys::default(), &w.env.secp)));
        r.check(w.s, "signing without keys changes nothing", res.is_ok() && b == p);
    } else if derive(w, r, &mut psbt, &keys, &codes) == Some(true) {
        found(w, r, &psbt, &prevouts);
        if prop == "C09" {
            // placeholders are gone: deriving again has nothing to replace
            let listed: Vec<SilentPaymentCode> = codes.clone();
            let b = psbt.clone();
            let res = guard(std::panic::AssertUnwindSafe(|| derive_sp(&mut psbt, &keys, &listed, &w.env.secp).is_ok()));
            let left = arr(&w.s["outs"]).iter().enumerate().any(|(o, x)| x["t"] == "ph" && w.e["outs"][o] == "");
            if !left {
                r.check(w.s, "deriving again changes nothing", res.is_ok() && b == psbt);
            }
        }
    }
}
