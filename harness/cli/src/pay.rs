//! Payments the wallet builds, looked at with keys and formulas of our own.
use crate::World;
use bitcoin::key::{CompressedPublicKey, UntweakedPublicKey};
use bitcoin::sighash::{Prevouts, SighashCache, TapSighashType};
use bitcoin::{Address, Psbt};
use hcore::bitcoin::block::{Header, Version as BlockVersion};
use hcore::bitcoin::hashes::Hash;
use hcore::bitcoin::secp256k1::{Message, PublicKey, Secp256k1, SecretKey, XOnlyPublicKey};
use hcore::bitcoin::{
    Amount, Block, CompactTarget, Network, OutPoint, ScriptBuf, Sequence, Transaction, TxIn, TxMerkleNode, TxOut, Witness,
};
use hcore::serde_json::{json, Value};
use hcore::universe::{label_tweak, output_tweak, path, spk_of, LABELS};
use hcore::{op_to_bytes, sc_add, sc_mul, tagged_hash, tx, Env};
use std::str::FromStr;

pub fn code(scan: PublicKey, spend: PublicKey, network: Network) -> String {
    bdk_sp::encoding::SilentPaymentCode::new_v0(scan, spend, network).to_string()
}
pub fn address(env: &Env, network: Network, tr: bool) -> String {
    let secp = Secp256k1::new();
    let key = env.point(&env.base("address"));
    if tr {
        Address::p2tr(&secp, UntweakedPublicKey::from(key), None, network).to_string()
    } else {
        Address::p2wpkh(&CompressedPublicKey(key), network).to_string()
    }
}

pub struct To {
    pub code: Option<String>,
    pub address: Option<String>,
    scan: SecretKey,
    spend: SecretKey,
    label: Option<u32>,
    own: bool,
    script: Option<ScriptBuf>,
}
pub fn recipient(w: &World, to: &str) -> To {
    let own = to.starts_with("own");
    let (scan, spend) = if own { (w.k.scan, w.k.spend) } else { (w.env.base("rscan"), w.env.base("rspend")) };
    let label = match to {
        "extlab" => Some(5),
        "ownlab" => Some(1),
        "ownchange" => Some(0),
        _ => None,
    };
    let mut t = To { code: None, address: None, scan, spend, label, own, script: None };
    if to.starts_with("p2") {
        let a = address(&w.env, w.k.network, to == "p2tr");
        t.script = Some(Address::from_str(&a).unwrap().assume_checked().script_pubkey());
        t.address = Some(a);
    } else {
        let b = sc_add(Some(spend), label.map(|m| label_tweak(&scan, m))).unwrap();
        t.code = Some(code(w.env.point(&scan), w.env.point(&b), w.k.network));
    }
    t
}

/// Outputs a recipient finds, (output, index of derivation, label); `tweak` is the input hash times
/// the sum of the input keys.
pub fn found(env: &Env, t: &Transaction, tweak: &SecretKey, scan: &SecretKey, spend: &SecretKey, labels: &[u32]) -> Vec<(usize, u32, Option<u32>)> {
    let shared = env.point(&sc_mul(Some(*tweak), Some(*scan)).unwrap());
    let mut out: Vec<(usize, u32, Option<u32>)> = vec![];
    for k in 0..t.output.len() as u32 {
        let base = sc_add(Some(*spend), Some(output_tweak(&shared, k)));
        let with = |l: Option<u32>| spk_of(env, &sc_add(base, l.map(|m| label_tweak(scan, m))).unwrap());
        let all = std::iter::once(None).chain(labels.iter().copied().map(Some));
        let hit = all.flat_map(|l| {
            let spk = with(l);
            t.output.iter().position(|o| o.script_pubkey == spk).map(|i| (i, k, l))
        });
        match hit.into_iter().next() {
            Some(h) => out.push(h),
            None => break,
        }
    }
    out
}

pub fn place(w: &World, op: &OutPoint) -> Option<(usize, SecretKey)> {
    let t = *w.u.by_txid.get(&op.txid)?;
    Some((t + 1, w.u.owned.get(op)?.0))
}
pub fn own_tweak(w: &World, t: &Transaction) -> Option<SecretKey> {
    let mut sum = None;
    for i in &t.input {
        let (_, tk) = place(w, &i.previous_output)?;
        let sk = sc_add(Some(w.k.spend), Some(tk)).unwrap();
        sum = sc_add(sum, Some(if w.env.is_even(&sk) { sk } else { sk.negate() }));
    }
    let a = sum?;
    let mut d = t.input.iter().map(|i| op_to_bytes(&i.previous_output)).min()?.to_vec();
    d.extend(w.env.point(&a).serialize());
    sc_mul(Some(SecretKey::from_slice(&tagged_hash("BIP0352/Inputs", &d)).ok()?), Some(a))
}

/// The event that describes a payment, and the final transaction.
pub fn judge(w: &World, to: &To, value: u64, printed: &Value, signed: &str) -> Result<(Value, Transaction), String> {
    let built = Psbt::from_str(printed["psbt"].as_str().unwrap_or("")).map_err(|e| format!("{printed}: {e}"))?;
    let psbt = Psbt::from_str(signed).map_err(|e| format!("{signed}: {e}"))?;
    if built.unsigned_tx != psbt.unsigned_tx {
        return Err(format!("{:?} signed as {:?}", built.unsigned_tx, psbt.unsigned_tx));
    }
    let t = &psbt.unsigned_tx;
    let ins: Vec<Value> = t
        .input
        .iter()
        .map(|i| {
            let op = i.previous_output;
            place(w, &op).map(|(t, _)| json!([t, op.vout])).ok_or(format!("{op} is not the wallet's"))
        })
        .collect::<Result<_, _>>()?;
    // who finds which output
    let mut who = vec!["other"; t.output.len()];
    let tweak = own_tweak(w, t).ok_or("no key")?;
    let all: Vec<u32> = LABELS.iter().map(|l| l.parse().unwrap()).collect();
    let own = found(&w.env, t, &tweak, &w.k.scan, &w.k.spend, &all);
    for (i, _, l) in &own {
        if *l == Some(0) {
            who[*i] = "change";
        }
    }
    if let Some(s) = &to.script {
        for (i, o) in t.output.iter().enumerate() {
            if o.script_pubkey == *s {
                who[i] = "recipient";
            }
        }
    } else {
        let mine = if to.own { own } else { found(&w.env, t, &tweak, &to.scan, &to.spend, &[5]) };
        let paid: Vec<usize> = mine.iter().filter(|x| x.2 == to.label).map(|x| x.0).collect();
        if to.label == Some(0) {
            // its own change code: one of the two is the payment
            if let Some(i) = paid.iter().find(|i| t.output[**i].value.to_sat() == value) {
                who[*i] = "recipient";
            }
        } else {
            for i in paid {
                who[i] = "recipient";
            }
        }
    }
    // signatures, against the outputs that are on chain
    let secp = Secp256k1::new();
    let prevouts: Vec<TxOut> =
        t.input.iter().map(|i| prevout(w, &i.previous_output)).collect();
    let mut fin = t.clone();
    let mut ok = vec![];
    for i in 0..t.input.len() {
        let mut good = false;
        if let Some(s) = psbt.inputs[i].tap_key_sig {
            let hash = SighashCache::new(t).taproot_key_spend_signature_hash(i, &Prevouts::All(&prevouts), s.sighash_type).map_err(|e| e.to_string())?;
            let key = XOnlyPublicKey::from_slice(&prevouts[i].script_pubkey.as_bytes()[2..]).map_err(|e| e.to_string())?;
            good = matches!(s.sighash_type, TapSighashType::Default | TapSighashType::All)
                && secp.verify_schnorr(&s.signature, &Message::from_digest(hash.to_byte_array()), &key).is_ok();
            fin.input[i].witness = Witness::from_slice(&[s.to_vec()]);
        }
        ok.push(good);
    }
    let lock = if t.lock_time.is_block_height() { t.lock_time.to_consensus_u32() } else { 2_000_000_000 };
    let outs: Vec<Value> = t.output.iter().zip(&who).map(|(o, p)| json!({"value": o.value.to_sat(), "who": p})).collect();
    let e = json!({"ev": "pay", "ok": true, "value": value, "ins": ins, "outs": outs, "fee": printed["fee"].as_u64().unwrap_or(u32::MAX as u64 / 4),
        "size": fin.vsize(), "signed": ok, "lock": lock});
    Ok((e, fin))
}

pub fn prevout(w: &World, op: &OutPoint) -> TxOut {
    w.u.txs[w.u.by_txid[&op.txid]].output[op.vout as usize].clone()
}

/// Puts a payment into a new block on top of the node's tip, if it fits there.
pub fn mine(w: &mut World, t: Transaction) -> Option<usize> {
    let blocks = w.s["blocks"].as_array().unwrap().clone();
    let at = w.node.tip();
    let chain = path(&blocks, at);
    let mut have = vec![];
    for b in &chain {
        have.extend(blocks[b - 1]["txs"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize));
    }
    let spent = |op: &OutPoint| have.iter().any(|h| w.u.txs[h - 1].input.iter().any(|i| i.previous_output == *op));
    if !t.input.iter().all(|i| have.contains(&(w.u.by_txid[&i.previous_output.txid] + 1)) && !spent(&i.previous_output)) {
        return None;
    }
    let n = w.u.txs.len();
    let tweak = own_tweak(w, &t)?;
    let all: Vec<u32> = LABELS.iter().map(|l| l.parse().unwrap()).collect();
    let mine = found(&w.env, &t, &tweak, &w.k.scan, &w.k.spend, &all);
    let cb = tx(
        vec![TxIn { previous_output: OutPoint::null(), script_sig: ScriptBuf::from_bytes(format!("mined {n}").into_bytes()), sequence: Sequence::MAX, witness: Witness::new() }],
        vec![TxOut { value: Amount::from_sat(1000), script_pubkey: ScriptBuf::new() }],
    );
    let ins: Vec<Value> = t.input.iter().map(|i| json!([w.u.by_txid[&i.previous_output.txid] + 1, i.previous_output.vout])).collect();
    let slots: Vec<Value> =
        mine.iter().map(|(o, k, l)| json!({"out": o, "k": k, "label": l.map_or(String::new(), |m| m.to_string())})).collect();
    let shared = w.env.point(&sc_mul(Some(tweak), Some(w.k.scan)).unwrap());
    let txid = t.compute_txid();
    for (o, k, l) in &mine {
        let tk = sc_add(Some(output_tweak(&shared, *k)), l.map(|m| label_tweak(&w.k.scan, m))).unwrap();
        w.u.owned.insert(OutPoint::new(txid, *o as u32), (tk, *l));
    }
    let vals: Vec<u64> = t.output.iter().map(|o| o.value.to_sat()).collect();
    let header = Header {
        version: BlockVersion::TWO,
        prev_blockhash: w.node.hash(at),
        merkle_root: TxMerkleNode::all_zeros(),
        time: 1_600_000_000 + blocks.len() as u32,
        bits: CompactTarget::from_consensus(0x207fffff),
        nonce: blocks.len() as u32,
    };
    let block = Block { header, txdata: vec![cb.clone(), t.clone()] };
    w.u.by_txid.insert(cb.compute_txid(), n);
    w.u.by_txid.insert(txid, n + 1);
    w.u.tweaks.extend([None, Some(w.env.point(&tweak))]);
    w.u.prevouts.extend([vec![], t.input.iter().map(|i| prevout(w, &i.previous_output)).collect()]);
    w.u.txs.extend([cb, t]);
    let height = chain.len() as u64 + 1;
    w.s["txs"].as_array_mut().unwrap().push(json!({"ins": [], "slots": [], "nouts": 1, "cb": true, "elig": false, "vals": [1000]}));
    w.s["txs"].as_array_mut().unwrap().push(json!({"ins": ins, "slots": slots, "nouts": vals.len(), "cb": false, "elig": true, "vals": vals}));
    w.s["blocks"].as_array_mut().unwrap().push(json!({"txs": [n + 1, n + 2], "height": height, "prev": at}));
    let b = w.node.add(block, at);
    assert_eq!(b, w.s["blocks"].as_array().unwrap().len());
    Some(b)
}

pub fn only_pays(to: &To, printed: &str) -> bool {
    let v = crate::Cli::json(printed).into_iter().next().unwrap_or_default();
    let p = Psbt::from_str(v["psbt"].as_str().unwrap_or(""));
    p.is_ok_and(|p| to.script.as_ref().is_some_and(|s| p.unsigned_tx.output.iter().all(|o| o.script_pubkey == *s)))
}
/// The same payment with inputs and outputs of others, as it is passed around: (kind, psbt).
pub fn joint(w: &World, raw: &str, seed: u64) -> Vec<(&'static str, String)> {
    let Ok(base) = Psbt::from_str(raw) else { return vec![] };
    let mut rng = hcore::Rng::new(seed, "joint");
    let mut out = vec![];
    for kind in ["order", "mixed", "signed", "blind", "empty"] {
        let mut p = base.clone();
        let foreign = |p: &mut Psbt, rng: &mut hcore::Rng, known: bool| {
            let at = rng.below(p.inputs.len() + 1);
            let mut hash = rng.bytes32();
            hash[0] |= 1;
            let txin = TxIn {
                previous_output: OutPoint::new(hcore::bitcoin::Txid::from_byte_array(hash), rng.below(3) as u32),
                script_sig: ScriptBuf::new(),
                sequence: Sequence(rng.next() as u32),
                witness: Witness::new(),
            };
            p.unsigned_tx.input.insert(at, txin);
            let mut i = bitcoin::psbt::Input::default();
            if known {
                let n = rng.below(4);
                let script_pubkey = match n {
                    0 => spk_of(&w.env, &w.env.base("foreign")),
                    _ => Address::p2wpkh(&CompressedPublicKey(w.env.point(&w.env.base(&format!("foreign{n}")))), w.k.network).script_pubkey(),
                };
                i.witness_utxo = Some(TxOut { value: Amount::from_sat(1000 + rng.below(100_000) as u64), script_pubkey });
            }
            p.inputs.insert(at, i);
            at
        };
        match kind {
            "order" => {
                let n = p.inputs.len();
                let k = rng.below(n);
                p.inputs.rotate_left(k);
                p.unsigned_tx.input.rotate_left(k);
                p.unsigned_tx.output.reverse();
                p.outputs.reverse();
            }
            "mixed" => {
                for _ in 0..rng.range(1, 3) {
                    foreign(&mut p, &mut rng, true);
                }
                p.unsigned_tx.output.push(TxOut { value: Amount::from_sat(777), script_pubkey: spk_of(&w.env, &w.env.base("elsewhere")) });
                p.outputs.push(Default::default());
            }
            "signed" => {
                // an input of another whose signature is there already
                let at = foreign(&mut p, &mut rng, true);
                let secp = Secp256k1::new();
                let kp = hcore::bitcoin::secp256k1::Keypair::from_secret_key(&secp, &w.env.base("foreign"));
                p.inputs[at].tap_key_sig = Some(hcore::bitcoin::taproot::Signature {
                    signature: secp.sign_schnorr_no_aux_rand(&Message::from_digest([7; 32]), &kp),
                    sighash_type: TapSighashType::All,
                });
                p.inputs[at].final_script_witness = if rng.chance(1, 2) { Some(Witness::from_slice(&[[9u8; 64]])) } else { None };
            }
            "blind" => {
                foreign(&mut p, &mut rng, false);
            }
            _ => p.inputs.iter_mut().for_each(|i| i.witness_utxo = None),
        }
        out.push((kind, p.to_string()));
    }
    out
}
/// What sign-psbt made of it.
pub fn judge_joint(w: &World, kind: &str, given: &str, ans: Result<String, String>) -> Value {
    let mut e = json!({"ev": "sign", "kind": kind, "ans": "no", "own": [], "rest": true, "complete": true, "got": format!("{ans:?}")});
    let out = match ans {
        Err(x) => {
            e["ans"] = json!(if x.contains("panicked at") { "panic" } else { "no" });
            return e;
        }
        Ok(x) => x,
    };
    let given = Psbt::from_str(given).unwrap();
    e["complete"] = json!(given.inputs.iter().all(|i| i.witness_utxo.is_some()));
    let v = crate::Cli::json(&out).into_iter().next().unwrap_or_default();
    let Ok(mut p) = Psbt::from_str(v["psbt"].as_str().unwrap_or("")) else {
        e["ans"] = json!("wrong");
        return e;
    };
    e["ans"] = json!("ok");
    let secp = Secp256k1::new();
    let mut own = vec![];
    let prevouts: Option<Vec<TxOut>> = given.inputs.iter().map(|i| i.witness_utxo.clone()).collect();
    for (i, txin) in given.unsigned_tx.input.iter().enumerate() {
        if place(w, &txin.previous_output).is_none() || given.inputs[i].witness_utxo.is_none() {
            continue;
        }
        let mut good = false;
        if let (Some(s), Some(prevouts)) = (p.inputs.get(i).and_then(|x| x.tap_key_sig), &prevouts) {
            let hash = SighashCache::new(&given.unsigned_tx).taproot_key_spend_signature_hash(i, &Prevouts::All(prevouts), s.sighash_type);
            let key = XOnlyPublicKey::from_slice(&prevouts[i].script_pubkey.as_bytes()[2..]);
            good = matches!((hash, key), (Ok(h), Ok(k)) if secp.verify_schnorr(&s.signature, &Message::from_digest(h.to_byte_array()), &k).is_ok())
                && matches!(s.sighash_type, TapSighashType::Default | TapSighashType::All);
            p.inputs[i].tap_key_sig = given.inputs[i].tap_key_sig;
            p.inputs[i].tap_internal_key = given.inputs[i].tap_internal_key;
        }
        own.push(good);
    }
    e["own"] = json!(own);
    e["rest"] = json!(p == given);
    e
}
