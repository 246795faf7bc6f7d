//! C13, C14: the light-client indexer against SPIndex.tla.
use hcore::bitcoin::secp256k1::{PublicKey, Scalar, SecretKey};
use hcore::bitcoin::{Network, OutPoint, ScriptBuf, Txid};
use hcore::serde_json::{json, Value};
use hcore::universe::{gen_txs, widen, label_tweak, Uni, LABELS};
use hcore::{guard, sc_add, Env, Report, Rng};
use indexer::bdk_chain::{Anchor, BlockId, ConfirmationBlockTime, Merge, TxPosInBlock};
use indexer::v2::{ChangeSet, SpIndexerV2};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

// ------------------------------------------------------------------ histories
pub fn blocks(rng: &mut Rng, n: usize, nb: usize) -> Vec<Value> {
    (0..nb)
        .map(|b| {
            let mut txs: Vec<usize> = (1..=n).filter(|_| rng.chance(1, 2)).collect();
            txs.insert(0, n + 1 + b);
            json!({"txs": txs, "height": 10 + rng.below(4), "prev": 0})
        })
        .collect()
}

fn items(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=n).filter(|_| rng.chance(1, 2)).collect();
    if v.is_empty() || rng.chance(1, 6) {
        v.push(rng.range(1, n));
    }
    if rng.chance(1, 3) {
        rng.shuffle(&mut v);
    }
    v
}

fn op(rng: &mut Rng, prop: &str, n: usize, nb: usize) -> Value {
    let t = rng.range(1, n);
    let b = rng.range(1, nb);
    let at = 100 + rng.below(6);
    match rng.below(16) {
        0 | 1 => json!({"op": "label", "m": *rng.pick(&LABELS), "handed": prop == "C14" && rng.chance(1, 3)}),
        2 if prop == "C13" => json!({"op": "address", "m": *rng.pick(&LABELS)}),
        2..=6 => {
            let all: Vec<usize> = (1..=n + nb).collect();
            let some: Vec<usize> = match rng.below(4) {
                0 => all.into_iter().filter(|_| rng.chance(3, 4)).collect(),
                _ => all,
            };
            json!({"op": "block", "b": b, "secrets": some, "mode": if rng.chance(1, 4) { "all" } else { "rel" }})
        }
        7 | 8 => {
            let it: Vec<Value> = items(rng, n)
                .into_iter()
                .map(|t| {
                    let bl: Vec<usize> = (1..=nb).filter(|_| rng.chance(1, 3)).collect();
                    json!({"tx": t, "blocks": bl})
                })
                .collect();
            json!({"op": "relevant", "items": it})
        }
        9..=11 => {
            let it: Vec<Value> = items(rng, n).into_iter().map(|t| json!({"tx": t, "at": 100 + rng.below(6)})).collect();
            json!({"op": "unconf", "items": it, "mode": if rng.chance(1, 4) { "all" } else { "rel" }})
        }
        12 => json!({"op": "anchor", "tx": t, "b": b}),
        13 => json!({"op": "seen", "tx": t, "at": at}),
        14 => json!({"op": "evict", "tx": t, "at": at}),
        _ => {
            let it: Vec<Value> = items(rng, n).into_iter().map(|t| json!({"tx": t, "at": 100 + rng.below(6)})).collect();
            json!({"op": "evictrel", "items": it})
        }
    }
}

/// Universes with random histories; with property "mc13"/"mc14" the alphabet for every history.
pub fn generate(prop: &str, seed: u64, n: usize) -> Vec<Value> {
    (0..n)
        .map(|id| {
            let mut rng = Rng::new(seed, &format!("{prop}/{id}"));
            let mc = prop.starts_with("mc");
            let nt = if mc { 3 } else { rng.range(2, 7) };
            let nb = if mc { 2 } else { rng.range(1, 4) };
            let mut txs = gen_txs(&mut rng, nt, nb);
            if !mc && id % 25 == 4 {
                widen(&mut Rng::new(seed, &format!("{prop}/wide/{id}")), &mut txs);
            }
            let blocks = blocks(&mut rng, nt, nb);
            let len = if mc { 9 } else { rng.range(2, 14) };
            let mut ops: Vec<Value> = (0..len).map(|_| op(&mut rng, if prop == "mc13" { "C13" } else { prop }, nt, nb)).collect();
            if mc {
                // the labels that matter here
                let used: BTreeSet<&str> =
                    txs.iter().flat_map(|t| t["slots"].as_array().unwrap()).map(|s| s["label"].as_str().unwrap()).filter(|l| !l.is_empty()).collect();
                ops.extend(used.iter().map(|m| json!({"op": "label", "m": m})));
                ops.extend((1..=nb).map(|b| json!({"op": "block", "b": b, "secrets": (1..=nt + nb).collect::<Vec<_>>(), "mode": "rel"})));
                let mut seen = BTreeSet::new();
                ops.retain(|o| seen.insert(o.to_string()));
            }
            json!({"id": id, "salt": format!("{prop}/{id}"), "txs": txs, "blocks": blocks, "ops": ops})
        })
        .collect()
}

// ------------------------------------------------------------------ replay
pub trait Anc: Anchor + for<'b> From<TxPosInBlock<'b>> + Ord + serde::Serialize + serde::de::DeserializeOwned + std::hash::Hash {}
impl Anc for ConfirmationBlockTime {}
impl Anc for BlockId {}

pub fn rows(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap()
}
pub fn n(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
pub fn lab(v: &Value) -> Option<u32> {
    let s = v.as_str().unwrap();
    (!s.is_empty()).then(|| s.parse().unwrap())
}

fn anchor<A: Anc>(u: &Uni, b: usize, tx_pos: usize) -> A {
    let (block, height) = &u.blocks[b - 1];
    let pos = TxPosInBlock { block, block_id: BlockId { height: *height, hash: block.block_hash() }, tx_pos };
    A::from(pos)
}

fn apply<A: Anc>(ix: &mut SpIndexerV2<A>, u: &Uni, o: &Value) -> (ChangeSet<A>, Option<bdk_sp::encoding::SilentPaymentCode>) {
    let tx = |x: &Value| Arc::new(u.tx(x).clone());
    let tweak = |x: &Value| u.tweaks[n(x) - 1];
    // a transaction without eligible inputs has no tweak; servers may send anything
    let any = u.tweaks.iter().flatten().next().copied().unwrap_or_else(|| {
        SecretKey::from_slice(&[5; 32]).unwrap().public_key(&bitcoin::secp256k1::Secp256k1::new())
    });
    let bogus = |x: &Value| tweak(x).unwrap_or(any);
    let cs = match o["op"].as_str().unwrap() {
        "label" => {
            if o["handed"] == true {
                // an address with the label was handed out before
                let _ = ix.get_labeled_address(lab(&o["m"]).unwrap(), Network::Regtest);
            }
            ix.add_label(lab(&o["m"]).unwrap())
        }
        "address" => {
            let a = ix.get_labeled_address(lab(&o["m"]).unwrap(), Network::Regtest);
            return (ChangeSet::default(), Some(a));
        }
        "block" => {
            let (block, height) = &u.blocks[n(&o["b"]) - 1];
            let secrets: HashMap<Txid, PublicKey> = rows(&o["secrets"]).iter().filter_map(|t| Some((u.txid(t), tweak(t)?))).collect();
            // the caller may bring its own filter, which is asked once the transaction is indexed
            let own = (n(&o["b"]) + rows(&o["secrets"]).len()) % 2 == 0;
            match (o["mode"] == "all", own) {
                (true, false) => ix.apply_block(block, secrets, *height),
                (false, false) => ix.apply_block_relevant(block, secrets, *height),
                (true, true) => ix.apply_block_with_filter(block, secrets, *height, |_, _| true),
                (false, true) => ix.apply_block_with_filter(block, secrets, *height, |ix, t| {
                    let known = |p: &OutPoint| ix.index().by_shared_secret.contains_key(p);
                    let txid = t.compute_txid();
                    (0..t.output.len() as u32).any(|v| known(&OutPoint::new(txid, v))) || t.input.iter().any(|i| known(&i.previous_output))
                }),
            }
        }
        "relevant" => ix.batch_insert_relevant(rows(&o["items"]).iter().map(|i| {
            let anchors: Vec<A> = rows(&i["blocks"]).iter().map(|b| anchor(u, n(b), 0)).collect();
            (tx(&i["tx"]), bogus(&i["tx"]), anchors)
        })),
        "unconf" => {
            let v: Vec<_> = rows(&o["items"]).iter().map(|i| (tx(&i["tx"]), bogus(&i["tx"]), i["at"].as_u64().unwrap())).collect();
            if o["mode"] == "all" {
                ix.batch_insert_unconfirmed(v)
            } else {
                ix.batch_insert_relevant_unconfirmed(v)
            }
        }
        "anchor" => ix.insert_anchor(u.txid(&o["tx"]), anchor(u, n(&o["b"]), 0)),
        "seen" => ix.insert_seen_at(u.txid(&o["tx"]), o["at"].as_u64().unwrap()),
        "evict" => ix.insert_evicted_at(u.txid(&o["tx"]), o["at"].as_u64().unwrap()),
        "evictrel" => ix.batch_insert_relevant_evicted_at(rows(&o["items"]).iter().map(|i| (u.txid(&i["tx"]), i["at"].as_u64().unwrap()))),
        x => panic!("unknown op {x}"),
    };
    (cs, None)
}

/// Compares everything the indexer holds with the state of the specification.
fn compare<A: Anc>(r: &mut Report, s: &Value, env: &Env, u: &Uni, ix: &SpIndexerV2<A>, e: &Value, when: &str) -> bool {
    let before = r.violations.len();
    let i = ix.index();
    macro_rules! eq {
        ($what:expr, $a:expr, $b:expr) => {
            r.eq(s, &format!("{} {when}", $what), &$a, &$b)
        };
    }
    eq!("keys", (u.scan, env.point(&u.spend)), (*ix.scan_sk(), *ix.spend_pk()));
    // labels
    let labels: BTreeMap<u32, (Scalar, PublicKey)> = rows(&e["labels"])
        .iter()
        .map(|m| {
            let m = lab(m).unwrap();
            let t = label_tweak(&u.scan, m);
            (m, (Scalar::from(t), env.point(&t)))
        })
        .collect();
    let act: BTreeMap<u32, (Scalar, PublicKey)> = i.label_lookup.iter().map(|(p, (t, m))| (*m, (*t, *p))).collect();
    eq!("labels", labels, act);
    eq!("number of labels", labels.len(), i.label_lookup.len());
    let byn: BTreeMap<u32, PublicKey> = i.num_to_label.iter().map(|(a, b)| (*a, *b)).collect();
    eq!("labels by number", labels.iter().map(|(m, x)| (*m, x.1)).collect::<BTreeMap<_, _>>(), byn);
    for m in LABELS.iter().map(|m| m.parse::<u32>().unwrap()) {
        eq!("label lookup", labels.get(&m).map(|x| x.0), i.get_label(m));
    }
    // outputs
    let mut outs: BTreeMap<OutPoint, SecretKey> = BTreeMap::new();
    let mut by_label: BTreeSet<(Option<u32>, OutPoint)> = BTreeSet::new();
    let mut scripts: BTreeMap<ScriptBuf, Vec<OutPoint>> = BTreeMap::new();
    for x in rows(&e["idx"]) {
        let op = OutPoint::new(u.txid(&x[0]), x[1].as_u64().unwrap() as u32);
        let (t, l) = u.owned[&op];
        assert_eq!(l, lab(&x[2]));
        outs.insert(op, t);
        by_label.insert((l, op));
        scripts.entry(u.tx(&x[0]).output[op.vout as usize].script_pubkey.clone()).or_default().push(op);
    }
    eq!("indexed outputs and tweaks", outs, i.by_shared_secret);
    eq!("outputs by label", by_label, i.by_label.iter().cloned().collect::<BTreeSet<_>>());
    for m in LABELS.iter().map(|m| Some(m.parse::<u32>().unwrap())).chain([None]) {
        let want: BTreeSet<[u8; 32]> = by_label.iter().filter(|x| x.0 == m).map(|x| outs[&x.1].secret_bytes()).collect();
        let got: BTreeSet<[u8; 32]> = i.get_by_label(m).map(|k| k.secret_bytes()).collect();
        eq!("tweaks by label", want, got);
    }
    eq!("indexed scripts", scripts.keys().collect::<BTreeSet<_>>(), i.by_script.keys().collect::<BTreeSet<_>>());
    for (spk, op) in &i.by_script {
        r.check(s, &format!("output of a script has that script {when}"), scripts.get(spk).is_some_and(|v| v.contains(op)));
        let got = i.get_by_script(spk).map(|t| hcore::universe::spk_of(env, &sc_add(Some(u.spend), Some(*t)).unwrap()));
        eq!("tweak of a script opens it", Some(spk.clone()), got);
    }
    let x1: BTreeSet<_> = i.by_xonly().map(|(x, op)| (x.serialize().to_vec(), *op)).collect();
    let x2: BTreeSet<_> = i.by_script.iter().map(|(k, op)| (k.as_bytes()[2..].to_vec(), *op)).collect();
    eq!("outputs by key", x2, x1);
    for t in &u.txs {
        let txid = t.compute_txid();
        let want: Vec<SecretKey> = outs.range(OutPoint::new(txid, 0)..=OutPoint::new(txid, u32::MAX)).map(|x| *x.1).collect();
        let got: Vec<SecretKey> = i.txouts_in_tx(txid).copied().collect();
        eq!("outputs of a transaction", want, got);
        for o in &t.output {
            if !scripts.contains_key(&o.script_pubkey) && i.get_by_script(&o.script_pubkey).is_some() {
                r.check(s, &format!("other scripts are not found {when}"), false);
            }
        }
    }
    let known: BTreeMap<Txid, PublicKey> = rows(&e["known"]).iter().map(|t| (u.txid(t), u.tweaks[n(t) - 1].unwrap())).collect();
    eq!("tweaks kept", known, i.txid_to_partial_secret);
    // graph
    let g = ix.graph();
    let gtxs: BTreeSet<Txid> = rows(&e["gtxs"]).iter().map(|t| u.txid(t)).collect();
    eq!("transactions in the graph", gtxs, g.full_txs().map(|t| t.txid).collect::<BTreeSet<_>>());
    for t in g.full_txs() {
        r.check(s, &format!("transactions are intact {when}"), u.by_txid.get(&t.txid).is_some_and(|i| u.txs[*i] == *t.tx));
    }
    r.check(s, &format!("no stray outputs in the graph {when}"), g.floating_txouts().next().is_none());
    let anchors: BTreeSet<(Txid, BlockId)> = rows(&e["anchors"])
        .iter()
        .map(|a| {
            let (b, h) = &u.blocks[n(&a[1]) - 1];
            (u.txid(&a[0]), BlockId { height: *h, hash: b.block_hash() })
        })
        .collect();
    let got: BTreeSet<(Txid, BlockId)> = g.full_txs().flat_map(|t| t.anchors.iter().map(move |a| (t.txid, a.anchor_block())).collect::<Vec<_>>()).collect();
    eq!("blocks transactions are anchored to", anchors, got);
    for t in g.full_txs() {
        for a in t.anchors {
            let b = a.anchor_block();
            let bi = u.blocks.iter().position(|x| x.0.block_hash() == b.hash).map(|x| x + 1).unwrap_or(1);
            r.check(s, &format!("anchors carry the block's data {when}"), *a == anchor::<A>(u, bi, 0));
        }
    }
    let pairs = |v: &Value| -> BTreeSet<(Txid, u64)> { rows(v).iter().map(|p| (u.txid(&p[0]), p[1].as_u64().unwrap())).collect() };
    let got: BTreeSet<(Txid, u64)> = g.full_txs().filter_map(|t| Some((t.txid, t.last_seen?))).collect();
    eq!("last seen", pairs(&e["seen"]), got);
    let got: BTreeSet<(Txid, u64)> = u.txs.iter().filter_map(|t| Some((t.compute_txid(), g.get_last_evicted(t.compute_txid())?))).collect();
    eq!("last evicted", pairs(&e["evicted"]), got);
    r.violations.len() == before
}

fn serial<A: Anc>(r: &mut Report, s: &Value, rng: &mut Rng, c: ChangeSet<A>) -> ChangeSet<A> {
    if rng.chance(1, 4) {
        crate::damaged(r, s, rng, &c);
    }
    let back: Result<ChangeSet<A>, String> = match rng.below(3) {
        0 => {
            r.count("change sets through JSON");
            guard(|| hcore::serde_json::to_string(&c).and_then(|j| hcore::serde_json::from_str(&j)).map_err(|e| e.to_string())).and_then(|x| x)
        }
        1 => {
            r.count("change sets through binary");
            guard(|| bincode::serialize(&c).and_then(|j| bincode::deserialize(&j)).map_err(|e| e.to_string())).and_then(|x| x)
        }
        _ => return c,
    };
    match back {
        Ok(b) => {
            r.check(s, "a change set survives serialization", b == c);
            b
        }
        Err(e) => {
            r.bad(s, "a change set survives serialization", "the change set".into(), e);
            c
        }
    }
}

/// Merges a run of change sets in a random grouping.
fn grouped<A: Anc>(r: &mut Report, s: &Value, rng: &mut Rng, cs: &[ChangeSet<A>]) -> ChangeSet<A> {
    if cs.len() <= 1 {
        let c = cs.first().cloned().unwrap_or_default();
        return serial(r, s, rng, c);
    }
    let cut = rng.range(1, cs.len() - 1);
    let mut a = grouped(r, s, rng, &cs[..cut]);
    if rng.chance(1, 4) {
        // stored after nothing
        let mut z = ChangeSet::<A>::default();
        z.merge(a.clone());
        r.check(s, "merging into an empty change set gives the change set", z == a);
        a = z;
    }
    let b = grouped(r, s, rng, &cs[cut..]);
    if rng.chance(1, 5) {
        a.merge(b.clone());
        r.count("change sets merged twice");
    }
    let (ea, eb) = (a.is_empty(), b.is_empty());
    a.merge(b);
    r.check(s, "a merge is empty exactly when both parts are", a.is_empty() == (ea && eb));
    serial(r, s, rng, a)
}

fn rebuild<A: Anc>(r: &mut Report, s: &Value, c: ChangeSet<A>, what: &str) -> Option<SpIndexerV2<A>> {
    match guard(|| SpIndexerV2::<A>::try_from(c)) {
        Ok(Ok(i)) => Some(i),
        Ok(Err(())) => {
            r.bad(s, &format!("rebuilding from {what} succeeds"), "an indexer".into(), "an error".into());
            None
        }
        Err(p) => {
            r.bad(s, &format!("rebuilding from {what} succeeds"), "an indexer".into(), p);
            None
        }
    }
}

pub fn run(prop: &str, seed: u64, s: &Value, e: &Value, r: &mut Report) {
    if s["id"].as_u64().unwrap() % 3 == 0 {
        history::<BlockId>(prop, seed, s, e, r)
    } else {
        history::<ConfirmationBlockTime>(prop, seed, s, e, r)
    }
}

fn history<A: Anc>(prop: &str, seed: u64, s: &Value, e: &Value, r: &mut Report) {
    let salt = s["salt"].as_str().unwrap();
    let env = Env::new(seed, salt);
    let mut rng = Rng::new(seed, &format!("run/{salt}/{}", s["id"]));
    let u = Uni::new(&env, s, env.base("scan").negate(), env.base("spend"));
    let (ops, states) = (rows(&s["ops"]), rows(&e["states"]));
    let mut ix = SpIndexerV2::<A>::new(u.scan, env.point(&u.spend));
    let mut stored: Vec<ChangeSet<A>> = vec![ix.initial_changeset()];
    r.check(s, "the initial change set is not empty", !stored[0].is_empty());
    for (i, (o, st)) in ops.iter().zip(states).enumerate() {
        r.count(&format!("step {}", o["op"].as_str().unwrap()));
        let known_before = ix.clone();
        let cs = match guard(|| apply(&mut ix, &u, o)) {
            Ok((cs, addr)) => {
                if let Some(a) = addr {
                    let m = label_tweak(&u.scan, lab(&o["m"]).unwrap());
                    let spend = env.point(&sc_add(Some(u.spend), Some(m)).unwrap());
                    r.eq(s, "labelled address", &(env.point(&u.scan), spend), &(a.scan, a.spend));
                }
                cs
            }
            Err(p) => {
                r.bad(s, &format!("step {} does not panic", o["op"]), "no panic".into(), p);
                return;
            }
        };
        r.check(s, "a change set is empty exactly when it carries nothing", cs.is_empty() == (cs == ChangeSet::default()));
        r.check(s, "change sets of steps carry no keys", cs.scan_sk.is_none() && cs.spend_pk.is_none());
        stored.push(cs);
        if !rows(&st["idx"]).is_empty() {
            r.count("states with outputs");
        }
        if prop == "C13" {
            if !compare(r, s, &env, &u, &ix, st, &format!("after {}", o["op"])) {
                return;
            }
            if rng.chance(1, 4) {
                // the same again
                let res = guard(|| apply(&mut ix, &u, o));
                if res.is_err() || !compare(r, s, &env, &u, &ix, st, &format!("after repeating {}", o["op"])) {
                    r.check(s, "repeating a step does not panic", res.is_ok());
                    return;
                }
            }
            continue;
        }
        if !(rng.chance(1, 4) || i + 1 == ops.len()) {
            continue;
        }
        r.count("restarts");
        let full = ix.initial_changeset();
        let mut ok = true;
        for (c, what) in [(full.clone(), "the full change set"), (grouped(r, s, &mut rng, &stored), "the stored change sets")] {
            match rebuild(r, s, c, what) {
                Some(x) => {
                    ok &= compare(r, s, &env, &u, &x, st, &format!("after rebuilding from {what}"));
                    // same views as the live one, up to the choice between outputs with one script
                    let (mut a, mut b) = (x.index().clone(), ix.index().clone());
                    a.by_script.clear();
                    b.by_script.clear();
                    ok &= r.check(s, &format!("index rebuilt from {what} equals the live one"), a == b);
                    if rng.chance(1, 3) {
                        ix = x; // carries on from here
                        r.count("histories continued after a restart");
                    }
                }
                None => ok = false,
            }
        }
        // its own changes applied again, in pieces or at once
        let mut again = ix.clone();
        let res = guard(|| {
            again.apply_changeset(full.clone());
            let mut c = known_before.initial_changeset();
            c.merge(stored.last().unwrap().clone());
            let mut older = known_before.clone();
            older.apply_changeset(c);
            older
        });
        match res {
            Ok(older) => {
                ok &= compare(r, s, &env, &u, &again, st, "after applying its own full change set");
                ok &= compare(r, s, &env, &u, &older, st, "after applying the changes of the step to the earlier state");
            }
            Err(p) => r.bad(s, "applying change sets does not panic", "no panic".into(), p),
        }
        // another wallet's changes
        let (osc, osp) = match rng.below(3) {
            0 => (env.base("oscan"), u.spend),
            1 => (u.scan, env.base("ospend")),
            _ => (env.base("oscan"), env.base("ospend")),
        };
        let uo = Uni::new(&Env::new(seed, &format!("{salt}/other")), s, osc, osp);
        let mut other = SpIndexerV2::<A>::new(osc, env.point(&osp));
        for o in ops.iter().take(i + 1) {
            let _ = guard(|| apply(&mut other, &uo, o));
        }
        let mut c = other.initial_changeset();
        match rng.below(4) {
            0 => c.scan_sk = None,
            1 => c.spend_pk = None,
            _ => (),
        }
        let mut ix2 = ix.clone();
        let res = guard(|| ix2.apply_changeset(c));
        r.check(s, "applying another wallet's change set does not panic", res.is_ok());
        ok &= compare(r, s, &env, &u, &ix2, st, "after applying another wallet's change set");
        // keys missing
        for which in 1..4 {
            let mut c = full.clone();
            if which & 1 != 0 {
                c.scan_sk = None;
            }
            if which & 2 != 0 {
                c.spend_pk = None;
            }
            let empty = c.is_empty();
            let nothing = c == ChangeSet::default();
            r.check(s, "a change set is empty exactly when it carries nothing", empty == nothing);
            let res = guard(|| SpIndexerV2::<A>::try_from(c).is_err());
            r.check(s, "rebuilding fails when a key is missing", res == Ok(true));
        }
        let mut one = ChangeSet::<A>::default();
        r.check(s, "the default change set is empty", one.is_empty() && one.take().is_none());
        match rng.below(3) {
            0 => one.scan_sk = Some(u.scan),
            1 => one.spend_pk = Some(env.point(&u.spend)),
            _ => {
                one.txid_to_partial_secret.insert(u.txs[0].compute_txid(), env.point(&u.spend));
            }
        }
        r.check(s, "a change set is empty exactly when it carries nothing", !one.is_empty());
        if !ok {
            return;
        }
    }
    if prop == "C14" && s["id"] == 0 {
        let mut all = stored;
        let fresh = 4242;
        let res = guard(|| {
            let code = ix.get_labeled_address(fresh, Network::Regtest);
            let c = all.drain(..).reduce(|mut a, b| {
                a.merge(b);
                a
            });
            (code, SpIndexerV2::<A>::try_from(c.unwrap()))
        });
        if let Ok((_, Ok(x))) = res {
            r.check(s, "a label registered by handing out a labelled address is in the returned change sets", x.index().get_label(fresh).is_some());
        }
    }
}
