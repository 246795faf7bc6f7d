//! C15: the full-node indexer against SPFullIndex.tla.
use crate::v2::{blocks, lab, n, rows};
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::{scan::Scanner, SpOut};
use hcore::bitcoin::secp256k1::{PublicKey, Scalar, SecretKey};
use hcore::bitcoin::{Network, OutPoint, ScriptBuf, Transaction, TxOut, Txid};
use hcore::serde_json::{json, Value};
use hcore::universe::{ext_op, gen_txs, widen, label_tweak, Uni, LABELS};
use hcore::{guard, sc_add, Env, Report, Rng};
use indexer::bdk_chain::{tx_graph, ConfirmationBlockTime, Merge, TxGraph};
use indexer::{PrevoutSource, SpIndexer, SpIndexes, SpIndexesChangeSet};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

fn keys(env: &Env) -> (SecretKey, SecretKey) {
    (env.base("scan"), env.base("spend").negate())
}

pub fn generate(prop: &str, seed: u64, count: usize) -> Vec<Value> {
    (0..count)
        .map(|id| {
            let salt = format!("{prop}/{id}");
            let mut rng = Rng::new(seed, &salt);
            let mc = prop == "mc15";
            let nt = if mc { 4 } else { rng.range(2, 8) };
            let mut txs = gen_txs(&mut rng, nt, 1);
            if !mc && id % 25 == 4 {
                widen(&mut Rng::new(seed, &format!("{prop}/wide/{id}")), &mut txs);
            }
            let bl = blocks(&mut rng, nt, 1);
            let mut s = json!({"id": id, "salt": salt, "txs": txs, "blocks": bl});
            let env = Env::new(seed, &salt);
            let (scan, spend) = keys(&env);
            let u = Uni::new(&env, &s, scan, spend);
            for (i, t) in s["txs"].as_array_mut().unwrap().iter_mut().enumerate() {
                t["elig"] = json!(u.tweaks[i].is_some() && t["cb"] == false);
            }
            let mut ops: Vec<Value> = vec![];
            if mc {
                ops.extend((1..=nt + 1).map(|t| json!({"op": "tx", "tx": t})));
                ops.push(json!({"op": "restart"}));
                let used: BTreeSet<&str> = txs.iter().flat_map(|t| rows(&t["slots"])).map(|s| s["label"].as_str().unwrap()).filter(|l| !l.is_empty()).collect();
                ops.extend(used.iter().map(|m| json!({"op": "label", "m": m})));
            } else {
                if rng.chance(2, 3) {
                    for m in LABELS.iter().filter(|_| rng.chance(1, 2)) {
                        ops.push(json!({"op": "label", "m": m}));
                    }
                    ops.push(json!({"op": "restart"}));
                }
                for _ in 0..rng.range(2, 14) {
                    ops.push(match rng.below(8) {
                        0 => json!({"op": "label", "m": *rng.pick(&LABELS)}),
                        1 => json!({"op": "restart"}),
                        _ => json!({"op": "tx", "tx": rng.range(1, nt + 1)}),
                    });
                }
            }
            s["ops"] = json!(ops);
            s
        })
        .collect()
}

#[derive(Clone)]
struct Prev(Arc<HashMap<Txid, Vec<TxOut>>>);
impl PrevoutSource for Prev {
    fn get_tx_prevouts(&self, tx: &Transaction) -> Vec<TxOut> {
        self.0[&tx.compute_txid()].clone()
    }
}
type Ix = SpIndexer<Prev, ConfirmationBlockTime>;

fn op(env: &Env, u: &Uni, x: &Value) -> OutPoint {
    let v = x[1].as_u64().unwrap() as u32;
    match n(&x[0]) {
        0 => ext_op(env, v),
        t => OutPoint::new(u.txs[t - 1].compute_txid(), v),
    }
}

fn compare(r: &mut Report, s: &Value, env: &Env, u: &Uni, ix: &Ix, e: &Value, when: &str) -> bool {
    let before = r.violations.len();
    let i = &ix.indexes;
    macro_rules! eq {
        ($what:expr, $a:expr, $b:expr) => {
            r.eq(s, &format!("{} {when}", $what), &$a, &$b)
        };
    }
    let labels: BTreeMap<u32, (Scalar, PublicKey)> = rows(&e["labels"])
        .iter()
        .map(|m| {
            let m = lab(m).unwrap();
            let t = label_tweak(&u.scan, m);
            (m, (Scalar::from(t), env.point(&t)))
        })
        .collect();
    eq!("labels", labels, i.label_to_tweak.iter().map(|(p, (t, m))| (*m, (*t, *p))).collect::<BTreeMap<_, _>>());
    eq!("labels by number", labels.iter().map(|(m, x)| (*m, x.1)).collect::<BTreeMap<_, _>>(), i.num_to_label);
    for m in LABELS.iter().map(|m| m.parse::<u32>().unwrap()) {
        eq!("label lookup", labels.get(&m).map(|x| x.0), i.get_label(m));
    }
    let mut outs: BTreeMap<OutPoint, SpOut> = BTreeMap::new();
    let mut scripts: BTreeMap<ScriptBuf, Vec<SpOut>> = BTreeMap::new();
    for x in rows(&e["idx"]) {
        let op = OutPoint::new(u.txid(&x[0]), x[1].as_u64().unwrap() as u32);
        let (tweak, label) = u.owned[&op];
        let o = &u.tx(&x[0]).output[op.vout as usize];
        let so = SpOut { outpoint: op, tweak, script_pubkey: o.script_pubkey.clone(), amount: o.value, label };
        scripts.entry(o.script_pubkey.clone()).or_default().push(so.clone());
        outs.insert(op, so);
    }
    let by_label: BTreeSet<(Option<u32>, OutPoint)> = outs.values().map(|o| (o.label, o.outpoint)).collect();
    eq!("indexed outputs", outs, i.spouts);
    eq!("outputs by label", by_label, i.label_to_spout.iter().map(|x| (x.0, x.1.outpoint)).collect::<BTreeSet<_>>());
    r.check(s, &format!("outputs by label are those outputs {when}"), i.label_to_spout.iter().all(|x| outs.get(&x.1.outpoint) == Some(&x.1)));
    eq!("indexed scripts", scripts.keys().collect::<BTreeSet<_>>(), i.script_to_spout.keys().collect::<BTreeSet<_>>());
    for (k, o) in &i.script_to_spout {
        r.check(s, &format!("output of a script has that script {when}"), scripts.get(k).is_some_and(|v| v.contains(o)));
        let spk = hcore::universe::spk_of(env, &sc_add(Some(u.spend), Some(o.tweak)).unwrap());
        eq!("tweak of a script opens it", *k, spk);
    }
    let known: BTreeMap<Txid, PublicKey> = rows(&e["known"])
        .iter()
        .map(|t| {
            let tw = u.tweaks[n(t) - 1].unwrap();
            (u.txid(t), tw.mul_tweak(&env.secp, &Scalar::from(u.scan)).unwrap())
        })
        .collect();
    eq!("shared secrets", known, i.txid_to_shared_secret);
    let spenders: BTreeSet<Txid> = rows(&e["spenders"]).iter().map(|t| u.txid(t)).collect();
    let got: BTreeSet<Txid> = u.txs.iter().filter(|t| ix.spends_owned_spouts(t)).map(|t| t.compute_txid()).collect();
    if !spenders.is_empty() {
        r.count("states with spenders");
    }
    eq!("transactions recognised as spends", spenders, got);
    for t in &u.txs {
        let txid = t.compute_txid();
        let want: Vec<&SpOut> = outs.range(OutPoint::new(txid, 0)..=OutPoint::new(txid, u32::MAX)).map(|x| x.1).collect();
        eq!("outputs of a transaction", want, i.txouts_in_tx(txid).collect::<Vec<_>>());
        for v in 0..t.output.len() as u32 + 1 {
            let o = OutPoint::new(txid, v);
            eq!("output lookup", outs.get(&o).map(|_| t.output[v as usize].clone()), i.txout(o));
        }
    }
    graph(r, s, env, u, &ix.tx_graph, e, when);
    r.violations.len() == before
}

fn graph(r: &mut Report, s: &Value, env: &Env, u: &Uni, g: &TxGraph<ConfirmationBlockTime>, e: &Value, when: &str) {
    let full: BTreeSet<Txid> = rows(&e["full"]).iter().map(|t| u.txid(t)).collect();
    r.eq(s, &format!("transactions in the graph {when}"), &full, &g.full_txs().map(|t| t.txid).collect());
    r.check(s, &format!("transactions are intact {when}"), g.full_txs().all(|t| u.by_txid.get(&t.txid).is_some_and(|i| u.txs[*i] == *t.tx)));
    r.eq(s, &format!("previous outputs in the graph {when}"), &floats(env, u, &e["float"]), &g.floating_txouts().map(|(o, t)| (o, t.clone())).collect());
}

fn floats(env: &Env, u: &Uni, v: &Value) -> BTreeMap<OutPoint, TxOut> {
    rows(v)
        .iter()
        .map(|x| {
            let o = op(env, u, x);
            let (ti, ii) = u.txs.iter().enumerate().find_map(|(ti, t)| Some((ti, t.input.iter().position(|i| i.previous_output == o)?))).unwrap();
            (o, u.prevouts[ti][ii].clone())
        })
        .collect()
}

fn through(r: &mut Report, s: &Value, rng: &mut Rng, c: SpIndexesChangeSet) -> SpIndexesChangeSet {
    if rng.chance(1, 4) {
        crate::damaged(r, s, rng, &c);
    }
    let back = match rng.below(3) {
        0 => {
            r.count("change sets through JSON");
            guard(|| hcore::serde_json::to_string(&c).and_then(|j| hcore::serde_json::from_str(&j)).map_err(|e| e.to_string())).and_then(|x| x)
        }
        1 => {
            r.count("change sets through binary");
            guard(|| bincode::serialize(&c).and_then(|j| bincode::deserialize(&j)).map_err(|e| e.to_string())).and_then(|x| x)
        }
        _ => return c,
    };
    match back {
        Ok(b) => {
            r.check(s, "a change set survives serialization", b == c);
            b
        }
        Err(e) => {
            r.bad(s, "a change set survives serialization", "the change set".into(), e);
            c
        }
    }
}

fn grouped(r: &mut Report, s: &Value, rng: &mut Rng, cs: &[SpIndexesChangeSet]) -> SpIndexesChangeSet {
    if cs.len() == 1 {
        return through(r, s, rng, cs[0].clone());
    }
    let cut = rng.range(1, cs.len() - 1);
    let mut a = grouped(r, s, rng, &cs[..cut]);
    if rng.chance(1, 4) {
        // stored after nothing
        let mut z = SpIndexesChangeSet::default();
        z.merge(a.clone());
        r.check(s, "merging into an empty change set gives the change set", z == a);
        a = z;
    }
    let b = grouped(r, s, rng, &cs[cut..]);
    if rng.chance(1, 4) {
        a.merge(b.clone());
    }
    let e = a.is_empty() && b.is_empty();
    a.merge(b);
    r.check(s, "a merge is empty exactly when both parts are", a.is_empty() == e && a.is_empty() == (a == SpIndexesChangeSet::default()));
    through(r, s, rng, a)
}

/// The change set dealt out over several: their merge holds everything again.
fn parts(r: &mut Report, s: &Value, rng: &mut Rng, c: &SpIndexesChangeSet) {
    let mut cs = vec![SpIndexesChangeSet::default(); rng.range(2, 4)];
    let n = cs.len();
    for (k, v) in c.spouts.clone() {
        cs[rng.range(0, n - 1)].spouts.insert(k, v);
    }
    for (k, v) in c.script_to_spout.clone() {
        cs[rng.range(0, n - 1)].script_to_spout.insert(k, v);
    }
    for (k, v) in c.txid_to_shared_secret.clone() {
        cs[rng.range(0, n - 1)].txid_to_shared_secret.insert(k, v);
    }
    for x in c.label_to_spout.clone() {
        cs[rng.range(0, n - 1)].label_to_spout.insert(x);
    }
    for (k, v) in c.label_to_tweak.clone() {
        cs[rng.range(0, n - 1)].label_to_tweak.insert(k, v);
    }
    for (k, v) in c.num_to_label.clone() {
        cs[rng.range(0, n - 1)].num_to_label.insert(k, v);
    }
    r.count("change sets merged from parts");
    let whole = grouped(r, s, rng, &cs);
    r.check(s, "the merge of its parts is the change set", whole == *c);
}

pub fn run(seed: u64, s: &Value, e: &Value, r: &mut Report) {
    let salt = s["salt"].as_str().unwrap();
    let env = Env::new(seed, salt);
    let mut rng = Rng::new(seed, &format!("run/{salt}/{}", s["id"]));
    let (scan, spend) = keys(&env);
    let u = Uni::new(&env, s, scan, spend);
    let code = SilentPaymentCode::new_v0(env.point(&scan), env.point(&spend), Network::Regtest);
    let prev = Prev(Arc::new(u.txs.iter().map(|t| t.compute_txid()).zip(u.prevouts.iter().cloned()).collect()));
    let scanner = |i: &SpIndexes| Scanner::new(scan, env.point(&spend), i.label_to_tweak.clone());
    let mut ix: Ix = SpIndexer::new(prev.clone(), scanner(&SpIndexes::default()), SpIndexes::default(), TxGraph::default());
    let mut snapshots = vec![SpIndexesChangeSet::default()];
    let mut returned = tx_graph::ChangeSet::<ConfirmationBlockTime>::default();
    let (ops, states) = (rows(&s["ops"]), rows(&e["states"]));
    for (o, st) in ops.iter().zip(states) {
        let what = o["op"].as_str().unwrap();
        r.count(&format!("step {what}"));
        match what {
            "label" => {
                let m = lab(&o["m"]).unwrap();
                let res = guard(|| ix.indexes.add_label(code.clone(), scan, m).map_err(|e| e.to_string()));
                let want = env.point(&sc_add(Some(spend), Some(label_tweak(&scan, m))).unwrap());
                r.eq(s, "labelled code", &Ok(Ok((env.point(&scan), want))), &res.map(|x| x.map(|c| (c.scan, c.spend))));
            }
            "tx" => {
                let t = u.tx(&o["tx"]);
                if s["txs"][n(&o["tx"]) - 1]["elig"] == false {
                    r.count("transactions without usable input");
                }
                for again in [false, true] {
                    if again && rng.chance(1, 2) {
                        break;
                    }
                    match guard(|| ix.index_tx(t).map_err(|e| e.to_string())) {
                        Ok(Ok(c)) => {
                            let want = if again { &Value::Null } else { &st["returned"] };
                            let none = json!([]);
                            let (wf, wo) = if again { (&none, &none) } else { (&want["full"], &want["float"]) };
                            let full: BTreeSet<Txid> = rows(wf).iter().map(|t| u.txid(t)).collect();
                            r.eq(s, "transactions returned as change", &full, &c.txs.iter().map(|t| t.compute_txid()).collect());
                            r.eq(s, "previous outputs returned as change", &floats(&env, &u, wo), &c.txouts);
                            r.check(s, "nothing else is returned as change", c.anchors.is_empty() && c.last_seen.is_empty() && c.last_evicted.is_empty());
                            returned.merge(c);
                        }
                        x => {
                            r.bad(s, "indexing a transaction succeeds", "a change set".into(), format!("{x:?}"));
                            return;
                        }
                    }
                    if !compare(r, s, &env, &u, &ix, st, if again { "after indexing a transaction again" } else { "after indexing a transaction" }) {
                        return;
                    }
                }
            }
            _ => {
                snapshots.push(ix.indexes.clone().into());
                let c = grouped(r, s, &mut rng, &snapshots);
                r.check(s, "the merge of all snapshots is the last one", c == *snapshots.last().unwrap());
                parts(r, s, &mut rng, &c);
                let back = match guard(|| SpIndexes::from(c)) {
                    Ok(b) => b,
                    Err(p) => return r.bad(s, "restoring the index does not panic", "an index".into(), p),
                };
                r.eq(s, "index restored from its change set", &ix.indexes, &back);
                let g = TxGraph::from_changeset(returned.clone());
                graph(r, s, &env, &u, &g, st, "rebuilt from the returned changes");
                ix = SpIndexer::new(prev.clone(), scanner(&back), back, g);
            }
        }
        if rng.chance(1, 3) {
            snapshots.push(ix.indexes.clone().into());
        }
        if !rows(&st["idx"]).is_empty() {
            r.count("states with outputs");
        }
        if !compare(r, s, &env, &u, &ix, st, &format!("after {what}")) {
            return;
        }
    }
}
