//! C22: an output of a transaction that is about to be signed becomes a silent payment.
use crate::{pay, Cli, Ended};
use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, Xpriv, Xpub};
use bitcoin::key::CompressedPublicKey;
use bitcoin::psbt::raw::ProprietaryKey;
use bitcoin::taproot::TapNodeHash;
use bitcoin::{Psbt, WPubkeyHash};
use hcore::bitcoin::hashes::{hash160, Hash};
use hcore::bitcoin::key::TapTweak;
use hcore::bitcoin::secp256k1::{Keypair, PublicKey, Secp256k1, SecretKey};
use hcore::bitcoin::{absolute, transaction, Amount, Network, OutPoint, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Txid, Witness};
use hcore::serde_json::{json, Value};
use hcore::universe::label_tweak;
use hcore::{op_to_bytes, sc_add, sc_mul, tagged_hash, Env, Report, Rng};
use std::path::{Path, PathBuf};
use std::str::FromStr;

const KINDS: [&str; 8] = ["tr", "wpkh", "sh", "pkh", "wsh", "ms", "trtree", "fut"];

/// Requests, mostly ones that can be fulfilled.
pub fn generate(seed: u64, n: usize) -> Vec<Value> {
    (0..n)
        .map(|id| {
            let mut g = Rng::new(seed, &format!("C22/{id}"));
            let odd = g.chance(1, 2);
            let m = g.range(1, 6);
            let mut ins: Vec<Value> = (0..m)
                .map(|_| json!({"kind": if g.chance(1, 6) { "wsh" } else { KINDS[g.below(4)] }, "der": if g.chance(1, 4) { "both" } else { "own" },
                    "utxo": if g.chance(1, 3) { "nonwit" } else { "wit" }}))
                .collect();
            for (i, x) in ins.iter_mut().enumerate() {
                x["key"] = json!(i);
            }
            // several outputs of one address
            if m > 1 && g.chance(1, 3) {
                let (i, j) = (g.below(m), g.below(m));
                ins[j] = ins[i].clone();
            }
            if odd {
                let i = g.below(m);
                match g.below(6) {
                    0 => ins[i]["utxo"] = json!(*g.pick(&["none", "short"])),
                    1 => ins[i]["kind"] = json!(*g.pick(&["ms", "trtree", "fut"])),
                    2 => {
                        ins[i]["kind"] = json!(*g.pick(&KINDS));
                        ins[i]["der"] = json!(*g.pick(&["other", "none", "wrong"]));
                    }
                    _ => ins[i]["der"] = json!(*g.pick(&["other", "none", "wrong"])),
                }
            }
            let k = g.range(1, 5);
            let hit = g.below(k);
            let lone = g.chance(4, 5);
            let mut outs: Vec<Value> = (0..k)
                .map(|o| json!({"v": if o == hit || (!lone && g.chance(1, 2)) { 1 } else { g.range(2, 4) }, "s": g.range(1, 4)}))
                .collect();
            // a script has one type
            let tr: Vec<bool> = (0..5).map(|_| g.chance(4, 5)).collect();
            for o in outs.iter_mut() {
                o["tr"] = json!(tr[o["s"].as_u64().unwrap() as usize]);
            }
            json!({"id": id, "p": {"ins": ins, "outs": outs, "code": g.chance(29, 30), "psbt": g.chance(39, 40),
                "desc": if g.chance(5, 6) { "own" } else { *g.pick(&["env", "env", "multi", "wif", "other", "pub", "junk", "none"]) }}})
        })
        .collect()
}

struct Made {
    op: OutPoint,
    txin: TxIn,
    input: bitcoin::psbt::Input,
    value: u64,
    /// what the input adds to the sum of the recipient
    adds: Option<SecretKey>,
}
fn xpath(g: &mut Rng) -> DerivationPath {
    (0..g.range(1, 5))
        .map(|_| {
            let i = if g.chance(1, 2) { g.below(5) as u32 } else { (g.next() as u32) >> 1 };
            if g.chance(1, 2) { ChildNumber::from_hardened_idx(i).unwrap() } else { ChildNumber::from_normal_idx(i).unwrap() }
        })
        .collect::<Vec<_>>()
        .into()
}
fn input(env: &Env, seed: u64, salt: &str, g: &mut Rng, i: &Value, master: &Xpriv) -> Made {
    let secp = Secp256k1::new();
    let fp = master.fingerprint(&secp);
    // inputs of the same kind and key spend outputs of the same address
    let kr = &mut Rng::new(seed, &format!("{salt}/key/{}/{}", i["kind"], i["key"]));
    let path = xpath(kr);
    let der = i["der"].as_str().unwrap();
    let own = matches!(der, "own" | "both");
    let sk = if own || (der != "other" && kr.chance(1, 2)) {
        master.derive_priv(&secp, &path).unwrap().private_key
    } else {
        SecretKey::from_slice(&kr.bytes32()).unwrap()
    };
    let pk = PublicKey::from_secret_key(&secp, &sk);
    let cpk = CompressedPublicKey(pk);
    let kind = i["kind"].as_str().unwrap();
    let pair = Keypair::from_secret_key(&secp, &sk);
    let (x, _) = pk.x_only_public_key();
    let root = (kind == "trtree").then(|| TapNodeHash::from_slice(&kr.bytes32()).unwrap());
    let other = PublicKey::from_secret_key(&secp, &SecretKey::from_slice(&kr.bytes32()).unwrap());
    let multi = {
        // 1-of-2
        let mut v = vec![0x51, 0x21];
        v.extend(pk.serialize());
        v.push(0x21);
        v.extend(other.serialize());
        v.extend([0x52, 0xae]);
        ScriptBuf::from_bytes(v)
    };
    let mut inp = bitcoin::psbt::Input::default();
    let spk = match kind {
        "tr" | "trtree" => ScriptBuf::new_p2tr(&secp, x, root),
        "wpkh" => ScriptBuf::new_p2wpkh(&WPubkeyHash::from(cpk)),
        "sh" => {
            let rs = ScriptBuf::new_p2wpkh(&WPubkeyHash::from(cpk));
            inp.redeem_script = g.chance(3, 4).then(|| rs.clone());
            ScriptBuf::new_p2sh(&rs.script_hash())
        }
        "pkh" => {
            let mut v = vec![0x76, 0xa9, 0x14];
            v.extend(hash160::Hash::hash(&pk.serialize()).as_byte_array());
            v.extend([0x88, 0xac]);
            ScriptBuf::from_bytes(v)
        }
        "wsh" => {
            inp.witness_script = Some(multi.clone());
            ScriptBuf::new_p2wsh(&multi.wscript_hash())
        }
        "ms" => {
            inp.redeem_script = Some(multi.clone());
            ScriptBuf::new_p2sh(&multi.script_hash())
        }
        "fut" => {
            let mut v = vec![0x52, 0x20];
            v.extend(kr.bytes32());
            ScriptBuf::from_bytes(v)
        }
        x => panic!("{x}"),
    };
    let adds = match kind {
        "tr" | "trtree" => {
            let t = pair.tap_tweak(&secp, root).to_keypair().secret_key();
            Some(if env.is_even(&t) { t } else { t.negate() })
        }
        "wpkh" | "sh" | "pkh" => Some(sk),
        _ => None,
    };
    // derivations
    let foreign = |g: &mut Rng| Fingerprint::from(<[u8; 4]>::try_from(&g.bytes32()[..4]).unwrap());
    let mut ders: Vec<(PublicKey, (Fingerprint, DerivationPath))> = vec![];
    match der {
        "own" => ders.push((pk, (fp, path.clone()))),
        "both" => {
            ders.push((pk, (fp, path.clone())));
            for _ in 0..g.range(1, 3) {
                let k = PublicKey::from_secret_key(&secp, &SecretKey::from_slice(&g.bytes32()).unwrap());
                // at times the path is the same, of another key
                let p = if g.chance(1, 2) { path.clone() } else { xpath(g) };
                ders.push((k, (foreign(g), p)));
            }
        }
        "wrong" => {
            let mut p = xpath(g);
            while p == path {
                p = xpath(g);
            }
            ders.push((pk, (fp, p)));
        }
        "other" => ders.push((pk, (foreign(g), path.clone()))),
        _ => {}
    }
    let tap = kind.starts_with("tr") || kind == "fut";
    for (k, d) in ders {
        if tap && g.chance(9, 10) {
            inp.tap_key_origins.insert(k.x_only_public_key().0, (vec![], d));
        } else {
            inp.bip32_derivation.insert(k, d);
        }
    }
    if tap && g.chance(1, 2) {
        inp.tap_internal_key = Some(x);
        inp.tap_merkle_root = root;
    }
    // the output that is spent
    let value = g.range(10_000, 100_000_000) as u64;
    let vout = *g.pick(&[0u32, 0, 1, 2, 5]);
    let out = TxOut { value: Amount::from_sat(value), script_pubkey: spk };
    let mut op = OutPoint::new(Txid::from_byte_array(g.bytes32()), *g.pick(&[0u32, 1, 2, 255, 256, 65536, 0x0100_0000]));
    match i["utxo"].as_str().unwrap() {
        "wit" => inp.witness_utxo = Some(out),
        x @ ("nonwit" | "short") => {
            let n = if x == "short" { vout } else { vout + 1 + g.below(2) as u32 };
            let outs = (0..n)
                .map(|o| if o == vout { out.clone() } else { TxOut { value: Amount::from_sat(1000 + o as u64), script_pubkey: pay_to(g, g.clone().chance(1, 2)) } })
                .collect();
            let t = hcore::tx(
                vec![TxIn { previous_output: OutPoint::new(Txid::from_byte_array(g.bytes32()), 0), script_sig: ScriptBuf::new(), sequence: Sequence::MAX, witness: Witness::new() }],
                outs,
            );
            op = OutPoint::new(t.compute_txid(), vout);
            inp.non_witness_utxo = Some(t);
        }
        _ => {}
    }
    if g.chance(1, 4) {
        inp.proprietary.insert(ProprietaryKey { prefix: b"x".to_vec(), subtype: 1, key: vec![1] }, vec![7]);
    }
    let sequence = Sequence(*g.pick(&[0xffff_ffffu32, 0xffff_fffd, 0xffff_fffe, 0, 144]));
    let txin = TxIn { previous_output: op, script_sig: ScriptBuf::new(), sequence, witness: Witness::new() };
    Made { op, txin, input: inp, value, adds }
}
fn pay_to(g: &mut Rng, tr: bool) -> ScriptBuf {
    let mut v = if tr { vec![0x51, 0x20] } else { vec![0, 0x14] };
    v.extend(&g.bytes32()[..if tr { 32 } else { 20 }]);
    ScriptBuf::from_bytes(v)
}

pub fn prepare(dir: &Path) {
    let x = Xpriv::new_master(Network::Regtest, &[7; 32]).unwrap();
    let (a, b) = (format!("tr({x}/352h/1h/0h/1h/0)"), format!("tr({x}/352h/1h/0h/0h/0)"));
    std::fs::create_dir_all(dir).unwrap();
    let o = std::process::Command::new(Cli::exe())
        .args(["init", "--network", "regtest", "--scan", &a, "--spend", &b])
        .current_dir(dir)
        .env_clear()
        .output()
        .unwrap();
    assert!(o.status.success(), "{o:?}");
}

/// Asks for one replacement; the request with its answer.
pub fn run(seed: u64, s: &Value, base: &Path, r: &mut Report) -> Value {
    let id = s["id"].as_u64().unwrap();
    let salt = format!("replace/{id}");
    let env = Env::new(seed, &salt);
    let mut g = Rng::new(seed, &salt);
    let secp = Secp256k1::new();
    let p = &s["p"];
    r.checked += 1;
    let master = Xpriv::new_master(Network::Regtest, &g.bytes32()).unwrap();
    let made: Vec<Made> = p["ins"].as_array().unwrap().iter().map(|i| input(&env, seed, &salt, &mut g, i, &master)).collect();
    let paid: u64 = made.iter().map(|m| m.value).sum();
    // amounts that differ, and leave a fee if all inputs are known
    let n = p["outs"].as_array().unwrap().len() as u64;
    let unit = (paid / (n * 5)).max(1);
    let amount = unit.min(5_000 + g.below(50_000) as u64);
    let value = |v: u64| if v == 1 { amount } else { amount + v * unit / 10 + v };
    let scripts: Vec<(ScriptBuf, ScriptBuf)> = (0..6).map(|_| (pay_to(&mut g, true), pay_to(&mut g, false))).collect();
    let outs: Vec<TxOut> = p["outs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|o| {
            let sc = &scripts[o["s"].as_u64().unwrap() as usize];
            TxOut { value: Amount::from_sat(value(o["v"].as_u64().unwrap())), script_pubkey: if o["tr"] == true { sc.0.clone() } else { sc.1.clone() } }
        })
        .collect();
    let t = Transaction {
        version: if g.chance(1, 3) { transaction::Version::ONE } else { transaction::Version::TWO },
        lock_time: absolute::LockTime::from_consensus(g.below(800_000) as u32),
        input: made.iter().map(|m| m.txin.clone()).collect(),
        output: outs.clone(),
    };
    let mut psbt = Psbt::from_unsigned_tx(t).unwrap();
    psbt.inputs = made.iter().map(|m| m.input.clone()).collect();
    if g.chance(1, 3) {
        let k = env.point(&env.base("own change"));
        psbt.outputs.last_mut().unwrap().bip32_derivation.insert(k, (master.fingerprint(&secp), xpath(&mut g)));
    }
    // the recipient
    let (scan, spend) = (env.base("rscan"), env.base("rspend"));
    let label = g.chance(1, 3).then_some(5);
    let b = sc_add(Some(spend), label.map(|m| label_tweak(&scan, m))).unwrap();
    let mut code = pay::code(env.point(&scan), env.point(&b), Network::Regtest);
    if p["code"] != true {
        let last = code.pop().unwrap();
        code.push(if last == 'q' { 'p' } else { 'q' });
    }
    let mut desc = match g.below(3) {
        0 => format!("tr({master}/86h/1h/0h/0/*)"),
        1 => format!("wpkh({master}/84h/1h/0h/1/*)"),
        _ => format!("tr({master}/3)"),
    };
    match p["desc"].as_str().unwrap() {
        "own" | "env" | "none" => {}
        "multi" => desc = format!("tr({master}/86h/1h/0h/<0;1>/*)"),
        "wif" => {
            // at times the very key of an input
            let sk = made[0].adds.filter(|_| g.chance(1, 2)).unwrap_or(master.private_key);
            desc = format!("tr({})", bitcoin::PrivateKey::new(sk, Network::Regtest));
        }
        "other" => desc = desc.replace(&master.to_string(), &Xpriv::new_master(Network::Regtest, &g.bytes32()).unwrap().to_string()),
        "pub" => desc = format!("tr({}/3/*)", Xpub::from_priv(&secp, &master)),
        _ => {
            let cut = g.below(desc.len());
            desc = if g.chance(1, 4) { "".into() } else if g.chance(1, 3) { master.to_string() } else { desc[..cut].to_string() };
        }
    }
    let mut text = psbt.to_string();
    if p["psbt"] != true {
        text.truncate(g.below(text.len()));
    }
    let dir = base.join(format!("{id}"));
    std::fs::create_dir_all(&dir).unwrap();
    const DB: &str = ".bdk_example_silentpayments.db";
    std::fs::copy(base.join(DB), dir.join(DB)).unwrap();
    let cli = Cli::at(dir.clone());
    let amount_text = amount.to_string();
    let mut args = vec!["to-silent-payment", "--code", &code, "--amount", &amount_text, "--psbt", &text];
    let vars = match p["desc"].as_str().unwrap() {
        "none" => vec![],
        "env" => vec![("DESCRIPTOR", desc.as_str())],
        _ => {
            args.extend(["--descriptor", &desc]);
            // what is given is preferred to what is there
            if g.chance(1, 4) { vec![("DESCRIPTOR", "tr(junk)")] } else { vec![] }
        }
    };
    let res = cli.run_with(&args, &vars);
    std::fs::remove_dir_all(&dir).unwrap();
    let mut a = json!({"how": "crash", "outs": [], "rest": false, "fee": 0, "paid": paid, "got": 0, "text": ""});
    match res {
        Ended::Hung => a["text"] = json!("no answer for 60 s"),
        Ended::Failed(e) => {
            a["how"] = json!(if e.contains("panicked at") || e.is_empty() { "crash" } else { "refused" });
            a["text"] = json!(e.lines().take(3).collect::<Vec<_>>().join(" "));
        }
        Ended::Ok(text) => {
            let o = Cli::json(&text).into_iter().next().unwrap_or_default();
            match o["psbt"].as_str().map(Psbt::from_str) {
                Some(Ok(got)) => {
                    a["how"] = json!("ok");
                    a["fee"] = json!(o["fee"].as_u64().unwrap_or(u32::MAX as u64 / 4));
                    let sum = made.iter().fold(None, |s, m| match m.adds {
                        Some(_) => sc_add(s, m.adds),
                        None => s,
                    });
                    let mut d = made.iter().map(|m| op_to_bytes(&m.op)).min().unwrap().to_vec();
                    let tweak = sum.and_then(|sum| {
                        d.extend(env.point(&sum).serialize());
                        sc_mul(Some(SecretKey::from_slice(&tagged_hash("BIP0352/Inputs", &d)).unwrap()), Some(sum))
                    });
                    let mine: Vec<usize> = tweak
                        .map(|t| pay::found(&env, &got.unsigned_tx, &t, &scan, &spend, &[5]))
                        .unwrap_or_default()
                        .into_iter()
                        .filter(|f| f.2 == label)
                        .map(|f| f.0)
                        .collect();
                    let mut rest = got.clone();
                    let mut shown = vec![];
                    for (i, o) in got.unsigned_tx.output.iter().enumerate() {
                        let who = match outs.get(i) {
                            _ if mine.contains(&i) => "recipient",
                            Some(was) if was.script_pubkey == o.script_pubkey => "same",
                            _ => "changed",
                        };
                        // amounts are named as in the request
                        let v = (1..=4u64).find(|v| value(*v) == o.value.to_sat()).unwrap_or(0);
                        shown.push(json!({"v": v, "who": who}));
                        if let Some(was) = outs.get(i) {
                            rest.unsigned_tx.output[i] = was.clone();
                        }
                    }
                    a["got"] = json!(got.unsigned_tx.output.iter().map(|o| o.value.to_sat()).sum::<u64>());
                    a["rest"] = json!(rest == psbt);
                    a["outs"] = json!(shown);
                }
                x => {
                    a["text"] = json!(format!("{text}: {x:?}"));
                }
            }
        }
    }
    r.count(&format!("answers {}", a["how"].as_str().unwrap()));
    if a["how"] == "ok" && made.len() > 1 {
        r.count("payments from several inputs");
        if made.iter().enumerate().any(|(i, m)| made[..i].iter().any(|o| o.adds.is_some() && o.adds == m.adds)) {
            r.count("payments from inputs of one address");
        }
    }
    json!({"id": id, "p": p, "a": a})
}

pub fn scratch(what: &str) -> PathBuf {
    std::env::temp_dir().join(format!("hcli-{}-{what}", std::process::id()))
}
