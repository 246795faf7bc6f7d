//! A closed set of transactions and blocks that pay a silent payment wallet, pay others, spend and
//! conflict with each other. Keys, tweaks and scripts are computed here from the BIP352 formulas,
//! independently of the code under test.
use crate::{op_to_bytes, sc_add, sc_mul, tagged_hash, tx, Env, Rng};
use bitcoin::block::{Header, Version as BlockVersion};
use bitcoin::hashes::{hash160, Hash};
use bitcoin::secp256k1::{PublicKey, SecretKey};
use bitcoin::{
    Amount, Block, BlockHash, CompactTarget, OutPoint, ScriptBuf, Sequence, Transaction, TxIn, TxMerkleNode, TxOut, Txid, Witness,
};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub struct Uni {
    pub scan: SecretKey,
    pub spend: SecretKey,
    pub txs: Vec<Transaction>,
    /// input hash times the sum of the eligible input keys
    pub tweaks: Vec<Option<PublicKey>>,
    pub prevouts: Vec<Vec<TxOut>>,
    pub blocks: Vec<(Block, u32)>,
    /// secret of an owned output minus the spend secret
    pub owned: HashMap<OutPoint, (SecretKey, Option<u32>)>,
    pub by_txid: HashMap<Txid, usize>,
}

pub fn label_tweak(scan: &SecretKey, m: u32) -> SecretKey {
    let mut d = scan.secret_bytes().to_vec();
    d.extend(m.to_be_bytes());
    SecretKey::from_slice(&tagged_hash("BIP0352/Label", &d)).unwrap()
}
pub fn output_tweak(shared: &PublicKey, k: u32) -> SecretKey {
    let mut d = shared.serialize().to_vec();
    d.extend(k.to_be_bytes());
    SecretKey::from_slice(&tagged_hash("BIP0352/SharedSecret", &d)).unwrap()
}
pub fn spk_of(env: &Env, s: &SecretKey) -> ScriptBuf {
    let mut v = vec![0x51, 0x20];
    v.extend(&env.point(s).serialize()[1..]);
    ScriptBuf::from_bytes(v)
}
fn num(s: &Value) -> Option<u32> {
    let s = s.as_str().unwrap();
    (!s.is_empty()).then(|| s.parse().unwrap())
}
fn txin(op: OutPoint, wit: Vec<Vec<u8>>) -> TxIn {
    TxIn { previous_output: op, script_sig: ScriptBuf::new(), sequence: Sequence::MAX, witness: Witness::from_slice(&wit) }
}
/// The outpoint outside the universe with number v.
pub fn ext_op(env: &Env, v: u32) -> OutPoint {
    OutPoint::new(Txid::from_byte_array(env.blob(&format!("ext/{v}"), 32).try_into().unwrap()), v % 5)
}
/// Some outside inputs are of a kind that contributes no key.
fn ext_is_wsh(v: u32) -> bool {
    v % 6 == 5
}
fn even(env: &Env, s: SecretKey) -> SecretKey {
    if env.is_even(&s) { s } else { s.negate() }
}

impl Uni {
    /// `foreign`: keys of the wallet other outputs are for (they look the same on chain).
    pub fn new(env: &Env, s: &Value, scan: SecretKey, spend: SecretKey) -> Uni {
        let mut u = Uni {
            scan,
            spend,
            txs: vec![],
            tweaks: vec![],
            prevouts: vec![],
            blocks: vec![],
            owned: HashMap::new(),
            by_txid: HashMap::new(),
        };
        let mut out_keys: HashMap<OutPoint, SecretKey> = HashMap::new();
        for (ti, t) in s["txs"].as_array().unwrap().iter().enumerate() {
            let cb = t["cb"].as_bool().unwrap();
            let mut ins = vec![];
            let mut prevs = vec![];
            let mut sum = None;
            let sig = |i: usize| env.blob(&format!("sig/{ti}/{i}"), 64);
            if cb {
                ins.push(TxIn {
                    previous_output: OutPoint::null(),
                    script_sig: ScriptBuf::from_bytes(env.blob(&format!("cb/{ti}"), 8)),
                    sequence: Sequence::MAX,
                    witness: Witness::new(),
                });
            }
            for (i, x) in t["ins"].as_array().unwrap().iter().enumerate() {
                let (pt, v) = (x[0].as_u64().unwrap(), x[1].as_u64().unwrap() as u32);
                if pt == 0 {
                    let op = ext_op(env, v);
                    let key = env.base(&format!("ext{v}"));
                    let value = Amount::from_sat(5_000_000);
                    if ext_is_wsh(v) {
                        prevs.push(TxOut { value, script_pubkey: ScriptBuf::from_bytes([vec![0, 32], env.blob(&format!("wsh/{v}"), 32)].concat()) });
                        ins.push(txin(op, vec![sig(i), vec![0x51]]));
                    } else if v % 2 == 0 {
                        let pk = env.point(&key).serialize();
                        let h = hash160::Hash::hash(&pk).to_byte_array().to_vec();
                        prevs.push(TxOut { value, script_pubkey: ScriptBuf::from_bytes([vec![0, 20], h].concat()) });
                        ins.push(txin(op, vec![sig(i), pk.to_vec()]));
                        sum = sc_add(sum, Some(key));
                    } else {
                        prevs.push(TxOut { value, script_pubkey: spk_of(env, &key) });
                        ins.push(txin(op, vec![sig(i)]));
                        sum = sc_add(sum, Some(even(env, key)));
                    }
                } else {
                    let p = &u.txs[pt as usize - 1];
                    let op = OutPoint::new(p.compute_txid(), v);
                    prevs.push(p.output[v as usize].clone());
                    match out_keys.get(&op) {
                        Some(k) => {
                            ins.push(txin(op, vec![sig(i)]));
                            sum = sc_add(sum, Some(even(env, *k)));
                        }
                        None => ins.push(txin(op, vec![sig(i), vec![0x51]])),
                    }
                }
            }
            let tweak = if cb {
                // nothing on chain gives a coinbase a tweak, but a server could send one
                Some(env.base(&format!("cbtweak/{ti}")))
            } else {
                sum.and_then(|a| {
                    let op = ins.iter().map(|i| op_to_bytes(&i.previous_output)).min().unwrap();
                    let mut d = op.to_vec();
                    d.extend(env.point(&a).serialize());
                    sc_mul(Some(SecretKey::from_slice(&tagged_hash("BIP0352/Inputs", &d)).unwrap()), Some(a))
                })
            };
            let mut outs = vec![];
            let mut owned = vec![];
            let mut keys = vec![];
            let slots: BTreeMap<u64, &Value> = t["slots"].as_array().unwrap().iter().map(|x| (x["out"].as_u64().unwrap(), x)).collect();
            for o in 0..t["nouts"].as_u64().unwrap() {
                let value = Amount::from_sat(10_000 + 1_000_000 * ti as u64 + 1000 * o + env.blob("value", 1)[0] as u64);
                let script_pubkey = if let (Some(sl), Some(tw)) = (slots.get(&o), tweak) {
                    let shared = env.point(&sc_mul(Some(tw), Some(scan)).unwrap());
                    let label = num(&sl["label"]);
                    let k = output_tweak(&shared, sl["k"].as_u64().unwrap() as u32);
                    let tk = sc_add(Some(k), label.map(|m| label_tweak(&scan, m))).unwrap();
                    let sk = sc_add(Some(spend), Some(tk)).unwrap();
                    owned.push((o as u32, tk, label));
                    keys.push((o as u32, sk));
                    spk_of(env, &sk)
                } else {
                    match (ti as u64 + o) % 3 {
                        0 => ScriptBuf::from_bytes([vec![0, 20], env.blob(&format!("o/{ti}/{o}"), 20)].concat()),
                        _ => {
                            let k = env.base(&format!("other/{ti}/{o}"));
                            keys.push((o as u32, k));
                            spk_of(env, &k)
                        }
                    }
                };
                outs.push(TxOut { value, script_pubkey });
            }
            let tr = tx(ins, outs);
            let txid = tr.compute_txid();
            for (o, tk, l) in owned {
                u.owned.insert(OutPoint::new(txid, o), (tk, l));
            }
            for (o, k) in keys {
                out_keys.insert(OutPoint::new(txid, o), k);
            }
            u.by_txid.insert(txid, ti);
            u.txs.push(tr);
            u.tweaks.push(tweak.map(|t| env.point(&t)));
            u.prevouts.push(prevs);
        }
        for (bi, b) in s["blocks"].as_array().unwrap().iter().enumerate() {
            let txdata: Vec<Transaction> = b["txs"].as_array().unwrap().iter().map(|t| u.txs[t.as_u64().unwrap() as usize - 1].clone()).collect();
            let prev = b["prev"].as_u64().unwrap_or(0) as usize;
            let header = Header {
                version: BlockVersion::TWO,
                prev_blockhash: if prev > 0 { u.blocks[prev - 1].0.block_hash() } else { BlockHash::all_zeros() },
                merkle_root: TxMerkleNode::all_zeros(),
                time: 1_600_000_000 + bi as u32,
                bits: CompactTarget::from_consensus(0x207fffff),
                nonce: bi as u32,
            };
            u.blocks.push((Block { header, txdata }, b["height"].as_u64().unwrap() as u32));
        }
        u
    }
    pub fn tx(&self, n: &Value) -> &Transaction {
        &self.txs[n.as_u64().unwrap() as usize - 1]
    }
    pub fn txid(&self, n: &Value) -> Txid {
        self.tx(n).compute_txid()
    }
}

pub const LABELS: [&str; 6] = ["1", "2", "7", "0", "70000", "4294967295"];

/// Random transactions: `n` ordinary ones and one coinbase per block to come (at the end).
pub fn gen_txs(rng: &mut Rng, n: usize, coinbases: usize) -> Vec<Value> {
    let mut txs: Vec<Value> = vec![];
    let mut ext = 0u64;
    for i in 0..n {
        let mut ins: Vec<Value> = vec![];
        let conflict = i > 0 && rng.chance(1, 5);
        if conflict {
            // same inputs as an earlier transaction, or some of them
            let of = rng.below(i);
            let prev = txs[of]["ins"].as_array().unwrap().clone();
            let keep = if rng.chance(1, 2) { prev.len() } else { rng.range(1, prev.len()) };
            ins.extend(prev.into_iter().take(keep));
        }
        if !conflict || rng.chance(1, 4) {
            for _ in 0..rng.range(1, 2) {
                let from: Vec<usize> = (0..i).collect();
                if !from.is_empty() && rng.chance(1, 2) {
                    let t = *rng.pick(&from);
                    let slots = txs[t]["slots"].as_array().unwrap();
                    let v = if !slots.is_empty() && rng.chance(3, 4) {
                        rng.pick(slots)["out"].as_u64().unwrap()
                    } else {
                        rng.below(txs[t]["nouts"].as_u64().unwrap() as usize) as u64
                    };
                    let x = json!([t + 1, v]);
                    if !ins.contains(&x) {
                        ins.push(x);
                    }
                } else {
                    ext += 1;
                    ins.push(json!([0, ext]));
                }
            }
        }
        // the keys of at least one input must be usable
        let known = ins.iter().any(|x| match x[0].as_u64().unwrap() as usize {
            0 => !ext_is_wsh(x[1].as_u64().unwrap() as u32),
            t => txs[t - 1]["slots"].as_array().unwrap().iter().any(|s| s["out"] == x[1]),
        });
        txs.push(outputs(rng, ins, false, known));
    }
    for _ in 0..coinbases {
        txs.push(outputs(rng, vec![], true, true));
    }
    txs
}

/// Gives some of the transactions many inputs or outputs before those that matter.
pub fn widen(rng: &mut Rng, txs: &mut [Value]) {
    for i in 0..txs.len() {
        if rng.chance(1, 3) && txs[i]["cb"] == false {
            let payable = !txs[i]["slots"].as_array().unwrap().is_empty();
            let more = *rng.pick(&[17u64, 40, 130, 260]);
            // where nobody is paid no further key may make it possible
            let mut ins: Vec<Value> = (0..more).map(|k| json!([0, 6 * (100 + 1000 * (i as u64 + 1) + k) + if payable { k % 6 } else { 5 }])).collect();
            ins.extend(txs[i]["ins"].as_array().unwrap().clone());
            txs[i]["ins"] = json!(ins);
        }
        let paid = txs[i]["slots"].as_array().unwrap().len() as u64;
        if rng.chance(1, 3) && paid > 0 {
            // many outputs for the wallet
            let (first, more) = (txs[i]["nouts"].as_u64().unwrap(), rng.range(20, 80) as u64);
            for j in 0..more {
                let label = if rng.chance(2, 3) { "" } else { *rng.pick(&LABELS) };
                txs[i]["slots"].as_array_mut().unwrap().push(json!({"out": first + j, "k": paid + j, "label": label}));
            }
            txs[i]["nouts"] = json!(first + more);
        }
        if rng.chance(1, 3) {
            let more = *rng.pick(&[17u64, 40, 130, 260]);
            txs[i]["nouts"] = json!(txs[i]["nouts"].as_u64().unwrap() + more);
            for s in txs[i]["slots"].as_array_mut().unwrap() {
                s["out"] = json!(s["out"].as_u64().unwrap() + more);
            }
            for t in txs.iter_mut() {
                for x in t["ins"].as_array_mut().unwrap() {
                    if x[0] == json!(i + 1) {
                        x[1] = json!(x[1].as_u64().unwrap() + more);
                    }
                }
            }
        }
    }
}

fn outputs(rng: &mut Rng, ins: Vec<Value>, cb: bool, payable: bool) -> Value {
    let nouts = rng.range(1, 4);
    let mut places: Vec<usize> = (0..nouts).collect();
    rng.shuffle(&mut places);
    let paid = if rng.chance(1, 3) { 0 } else { rng.range(1, nouts.min(3)) };
    let mut k = if rng.chance(1, 20) { 1 } else { 0 };
    let mut slots = vec![];
    // an ineligible transaction cannot pay anyone silently
    if payable {
        for p in places.into_iter().take(paid) {
            let label = if rng.chance(1, 2) { "" } else { *rng.pick(&LABELS) };
            slots.push(json!({"out": p, "k": k, "label": label}));
            k += if rng.chance(1, 25) { 2 } else { 1 };
        }
    }
    json!({"ins": ins, "slots": slots, "nouts": nouts, "cb": cb})
}

/// A tree of blocks over transactions 1..n and one coinbase per block; no block spends an output
/// its branch already spent. `jumps`: heights may skip.
pub fn tree(rng: &mut Rng, n: usize, nb: usize, txs: &[Value], jumps: bool) -> Vec<Value> {
    let mut heights = vec![0u32];
    for i in 0..nb + 1 {
        let step = if jumps && rng.chance(1, 6) { rng.range(97, 102) } else { 1 };
        heights.push(heights[i] + step as u32);
    }
    let mut out: Vec<Value> = vec![];
    let mut info: Vec<(usize, BTreeSet<usize>, BTreeSet<String>)> = vec![(0, BTreeSet::new(), BTreeSet::new())];
    for b in 0..nb {
        let prev = match rng.below(8) {
            0 => 0,
            1..=2 => rng.below(b + 1),
            3 => b.saturating_sub(1),
            _ => b,
        };
        let (depth, mut have, mut spent) = info[prev].clone();
        let mut inside = vec![n + 1 + b];
        have.insert(n + 1 + b);
        for t in 1..=n {
            if have.contains(&t) || !rng.chance(3, 5) {
                continue;
            }
            let ins = txs[t - 1]["ins"].as_array().unwrap();
            let known = |x: &Value| x[0] == 0 || have.contains(&(x[0].as_u64().unwrap() as usize));
            if ins.iter().all(|x| known(x) && !spent.contains(&x.to_string())) {
                inside.push(t);
                have.insert(t);
                spent.extend(ins.iter().map(|x| x.to_string()));
            }
        }
        out.push(json!({"txs": inside, "height": heights[depth + 1], "prev": prev}));
        info.push((depth + 1, have, spent));
    }
    out
}

/// Makes the first three blocks two branches that share transactions.
pub fn fork(blocks: &mut [Value], txs: &[Value], nt: usize) {
    blocks[1]["prev"] = json!(0);
    blocks[1]["height"] = json!(1);
    let inside = blocks[0]["txs"].as_array().unwrap()[1..].to_vec();
    let cb = blocks[1]["txs"][0].clone();
    blocks[1]["txs"] = json!(std::iter::once(cb).chain(inside).collect::<Vec<_>>());
    let cb = blocks[2]["txs"][0].clone();
    blocks[2]["prev"] = json!(2);
    blocks[2]["height"] = json!(2);
    let have: Vec<Value> = blocks[1]["txs"].as_array().unwrap().clone();
    let mut spent: Vec<String> = vec![];
    let mut inside: Vec<Value> = have[1..].to_vec();
    for t in &inside {
        spent.extend(txs[t.as_u64().unwrap() as usize - 1]["ins"].as_array().unwrap().iter().map(|x| x.to_string()));
    }
    let mut second = vec![cb];
    for t in 1..=nt {
        let v = json!(t);
        let ins = txs[t - 1]["ins"].as_array().unwrap();
        if !inside.contains(&v) && ins.iter().all(|x| (x[0] == 0 || inside.contains(&x[0])) && !spent.contains(&x.to_string())) {
            spent.extend(ins.iter().map(|x| x.to_string()));
            inside.push(v.clone());
            second.push(v);
        }
    }
    blocks[2]["txs"] = json!(second);
}

/// The blocks from the first one to b.
pub fn path(blocks: &[Value], b: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut b = b;
    while b > 0 {
        v.insert(0, b);
        b = blocks[b - 1]["prev"].as_u64().unwrap() as usize;
    }
    v
}
