//! C17, C18: the wallet against SPWallet.tla.
use bdk_sp_wallet::{signers, ChangeSet, SpWallet, SpWalletError};
use bdk_tx::miniscript::miniscript::satisfy::{Placeholder, SchnorrSigType};
use bdk_tx::TxStatus;
use hcore::bitcoin::absolute::{Height, Time};
use hcore::bitcoin::bip32::{DerivationPath, Xpriv, Xpub};
use hcore::bitcoin::constants::genesis_block;
use hcore::bitcoin::hashes::Hash;
use hcore::bitcoin::secp256k1::{PublicKey, Secp256k1, SecretKey};
use hcore::bitcoin::{Amount, BlockHash, Network, OutPoint, ScriptBuf, Txid};
use hcore::serde_json::{json, Value};
use hcore::universe::{gen_txs, widen, label_tweak, path, tree, Uni, LABELS};
use hcore::{each, guard, sc_add, Env, Report, Rng};
use indexer::bdk_chain::{BlockId, CheckPoint, Merge};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::str::FromStr;

const NETWORKS: [Network; 4] = [Network::Regtest, Network::Testnet, Network::Signet, Network::Bitcoin];

struct Keys {
    network: Network,
    descriptor: String,
    public: String,
    scan: SecretKey,
    spend: SecretKey,
}
fn keys(env: &Env, s: &Value) -> Keys {
    let secp = Secp256k1::new();
    let id = s["id"].as_u64().unwrap();
    let network = NETWORKS[id as usize % 4];
    let x = Xpriv::new_master(network, &env.blob("master", 32)).unwrap();
    let coin = if network == Network::Bitcoin { 0 } else { 1 };
    let get = |p: &str| x.derive_priv(&secp, &DerivationPath::from_str(&format!("m/352h/{coin}h/0h/{p}")).unwrap()).unwrap().private_key;
    let origin = if id % 3 == 1 { "[d34db33f]" } else { "" };
    let xpub = Xpub::from_priv(&secp, &x);
    Keys { network, descriptor: format!("tr({origin}{x})"), public: format!("tr({xpub})"), scan: get("1h/0"), spend: get("0h/0") }
}

// ------------------------------------------------------------------ histories
fn generate(prop: &str, seed: u64, n: usize) -> Vec<Value> {
    (0..n)
        .map(|id| {
            let mut rng = Rng::new(seed, &format!("{prop}/{id}"));
            let mc = prop.starts_with("mc");
            let nt = if mc { 4 } else { rng.range(2, 8) };
            let nb = if mc { 3 } else { rng.range(2, 7) };
            let mut txs = gen_txs(&mut rng, nt, nb);
            if !mc && id % 25 == 4 {
                widen(&mut Rng::new(seed, &format!("{prop}/wide/{id}")), &mut txs);
            }
            for t in txs.iter_mut().skip(nt) {
                t["slots"] = json!([]);
            }
            let blocks = tree(&mut rng, nt, nb, &txs, true);
            let every: Vec<usize> = (1..=nt).collect();
            // some wallets are not told about every block
            let sparse = !mc && rng.chance(1, 2);
            let chain = |rng: &mut Rng, b: usize| match if sparse { rng.below(4) } else { 0 } {
                1 => json!({"op": "tip", "b": b}),
                2 | 3 => {
                    let via: Vec<usize> = path(&blocks, b).into_iter().filter(|_| rng.chance(1, 3)).collect();
                    json!({"op": "link", "b": b, "via": via})
                }
                _ => json!({"op": "chain", "b": b}),
            };
            let block = |rng: &mut Rng, b: usize| {
                let some: Vec<usize> = if rng.chance(1, 8) { every.iter().copied().filter(|_| rng.chance(2, 3)).collect() } else { every.clone() };
                json!({"op": "block", "b": b, "secrets": some})
            };
            let mut ops: Vec<Value> = vec![];
            if mc {
                let used: BTreeSet<&str> =
                    txs.iter().flat_map(|t| t["slots"].as_array().unwrap()).map(|s| s["label"].as_str().unwrap()).filter(|l| !l.is_empty()).collect();
                ops.extend(used.iter().map(|m| json!({"op": "address", "m": m})));
                for b in 1..=nb {
                    ops.push(json!({"op": "block", "b": b, "secrets": every}));
                    ops.push(json!({"op": "chain", "b": b}));
                    // not told about every block
                    ops.push(if b % 2 == 0 { json!({"op": "link", "b": b, "via": []}) } else { json!({"op": "tip", "b": b}) });
                }
                ops.push(json!({"op": "take"}));
                if prop == "mc18" {
                    ops.push(json!({"op": "crash"}));
                }
            } else {
                let mut applied = BTreeSet::new();
                while ops.len() < 18 {
                    match rng.below(12) {
                        0 | 1 => ops.push(json!({"op": "address", "m": *rng.pick(&LABELS)})),
                        2 => {
                            let b = rng.range(1, nb);
                            ops.push(chain(&mut rng, b));
                        }
                        3 => {
                            let b = rng.range(1, nb);
                            ops.push(block(&mut rng, b));
                            applied.insert(b);
                        }
                        4 | 5 => ops.push(json!({"op": "take"})),
                        6 if prop == "C18" => {
                            ops.push(json!({"op": "crash"}));
                            applied.clear();
                        }
                        _ => {
                            // follow the chain to some block, as a client does
                            let to = rng.range(1, nb);
                            let first = rng.chance(1, 3);
                            if first {
                                ops.push(chain(&mut rng, to));
                            }
                            for b in path(&blocks, to) {
                                if applied.insert(b) || rng.chance(1, 8) {
                                    ops.push(block(&mut rng, b));
                                }
                            }
                            if !first {
                                ops.push(chain(&mut rng, to));
                            }
                        }
                    }
                }
            }
            let mut s = json!({"id": id, "salt": format!("{prop}/{id}"), "txs": txs, "blocks": blocks, "ops": ops});
            // the order of the transaction ids, which decides between pending rivals
            let env = Env::new(seed, s["salt"].as_str().unwrap());
            let k = keys(&env, &s);
            let u = Uni::new(&env, &s, k.scan, k.spend);
            let mut ids: Vec<Txid> = u.by_txid.keys().copied().collect();
            ids.sort();
            s["rank"] = json!(u.txs.iter().map(|t| ids.binary_search(&t.compute_txid()).unwrap() + 1).collect::<Vec<_>>());
            s
        })
        .collect()
}

// --------------------------------------------------------------------- replay
fn rows(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap()
}
fn n(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn lab(v: &Value) -> Option<u32> {
    let s = v.as_str().unwrap();
    (!s.is_empty()).then(|| s.parse().unwrap())
}

struct Run<'a> {
    s: &'a Value,
    env: Env,
    u: Uni,
    k: Keys,
    genesis: BlockHash,
    birthday: BlockId,
}

impl Run<'_> {
    fn id(&self, b: usize) -> BlockId {
        let (block, height) = &self.u.blocks[b - 1];
        BlockId { height: *height, hash: block.block_hash() }
    }
    fn best(&self, chain: &[Value]) -> Vec<BlockId> {
        let mut v = vec![BlockId { height: 0, hash: self.genesis }];
        v.extend(chain.iter().map(|b| self.id(n(b))));
        v
    }
    fn create(&self) -> SpWallet {
        SpWallet::new(self.birthday, self.genesis, &self.k.descriptor, self.k.network).expect("wallet")
    }
    fn step(&self, w: &mut SpWallet, o: &Value) -> Result<(), String> {
        let b = || n(&o["b"]);
        match o["op"].as_str().unwrap() {
            "block" => {
                let (block, height) = &self.u.blocks[b() - 1];
                let secrets: HashMap<Txid, PublicKey> =
                    rows(&o["secrets"]).iter().filter_map(|t| Some((self.u.txid(t), self.u.tweaks[n(t) - 1]?))).collect();
                guard(|| w.apply_block_relevant(block, secrets, *height))
            }
            "chain" => {
                let p = path(rows(&self.s["blocks"]), b());
                let ids = self.best(&p.iter().map(|x| json!(x)).collect::<Vec<_>>());
                guard(|| w.update_chain(CheckPoint::from_block_ids(ids).unwrap()))
            }
            "link" => {
                // the last block both know, and some more
                let p = path(rows(&self.s["blocks"]), b());
                let known: BTreeSet<BlockId> = w.chain().iter_checkpoints().map(|c| c.block_id()).collect();
                let shared = p.iter().rev().find(|x| known.contains(&self.id(**x))).copied();
                let told: BTreeSet<usize> = rows(&o["via"]).iter().map(n).chain(shared).chain([b()]).collect();
                let ids = self.best(&p.iter().filter(|x| told.contains(x)).map(|x| json!(x)).collect::<Vec<_>>());
                guard(|| w.update_chain(CheckPoint::from_block_ids(ids).unwrap()))
            }
            "tip" => {
                let blocks = rows(&self.s["blocks"]);
                let known: BTreeSet<BlockId> = w.chain().iter_checkpoints().map(|c| c.block_id()).collect();
                let p = path(blocks, b());
                let apart = (1..=blocks.len()).any(|x| known.contains(&self.id(x)) && !p.contains(&x) && !path(blocks, x).contains(&b()));
                if apart {
                    return Ok(());
                }
                guard(|| w.update_chain(w.chain().tip().insert(self.id(b()))))
            }
            "address" => guard(|| {
                let m = lab(&o["m"]).unwrap();
                let a = w.get_labelled_address(m);
                match (m, a) {
                    (0, Err(SpWalletError::ReservedLabel)) => None,
                    (0, _) => Some("label 0 was handed out".to_string()),
                    (m, Ok(a)) => (!self.is_code(&a, Some(m))).then(|| format!("label {m}: {a}")),
                    (m, Err(e)) => Some(format!("label {m} refused: {e:?}")),
                }
            })
            .and_then(|x| x.map_or(Ok(()), Err)),
            x => panic!("unknown op {x}"),
        }
    }
    fn is_code(&self, a: &bdk_sp::encoding::SilentPaymentCode, label: Option<u32>) -> bool {
        let spend = sc_add(Some(self.k.spend), label.map(|m| label_tweak(&self.u.scan, m))).unwrap();
        let hrp = if self.k.network == Network::Bitcoin { "sp1q" } else { "tsp1q" };
        a.scan == self.env.point(&self.u.scan)
            && a.spend == self.env.point(&spend)
            && a.network == self.k.network
            && (self.k.network == Network::Regtest || a.to_string().starts_with(hrp))
    }

    /// Compares everything the wallet shows with the state of the specification.
    fn compare(&self, r: &mut Report, w: &mut SpWallet, e: &Value, when: &str) -> bool {
        let (s, u) = (self.s, &self.u);
        let before = r.violations.len();
        let staged_before = w.staged().cloned();
        macro_rules! eq {
            ($what:expr, $a:expr, $b:expr) => {
                r.eq(s, &format!("{} {when}", $what), &$a, &$b)
            };
        }
        eq!("birthday", self.birthday, w.birthday);
        eq!("network", self.k.network, w.network());
        let chain = self.best(rows(&e["chain"]));
        let mut got: Vec<BlockId> = w.chain().iter_checkpoints().map(|c| c.block_id()).collect();
        got.reverse();
        eq!("best chain", chain, got);
        eq!("tip height", chain.last().unwrap().height, w.tip_info().0.to_consensus_u32());
        // codes
        r.check(s, &format!("base code {when}"), self.is_code(&w.get_address(), None));
        r.check(s, &format!("change code {when}"), self.is_code(&w.get_change_address(), Some(0)));
        for m in rows(&e["labels"]).iter().map(|m| lab(m).unwrap()).filter(|m| *m != 0) {
            let a = w.get_labelled_address(m);
            r.check(s, &format!("labelled code {when}"), a.is_ok_and(|a| self.is_code(&a, Some(m))));
        }
        r.check(s, &format!("label 0 is refused {when}"), matches!(w.get_labelled_address(0), Err(SpWalletError::ReservedLabel)));
        // outputs
        let mut outs: BTreeMap<OutPoint, SecretKey> = BTreeMap::new();
        let mut by_label: BTreeSet<(Option<u32>, OutPoint)> = BTreeSet::new();
        for x in rows(&e["idx"]) {
            let op = OutPoint::new(u.txid(&x[0]), n(&x[1]) as u32);
            outs.insert(op, u.owned[&op].0);
            by_label.insert((lab(&x[2]), op));
        }
        eq!("outputs and tweaks", outs, w.indexer().index().by_shared_secret.clone());
        eq!("outputs by label", by_label, w.indexer().index().by_label.iter().cloned().collect::<BTreeSet<_>>());
        let gtxs: BTreeSet<Txid> = rows(&e["gtxs"]).iter().map(|t| u.txid(t)).collect();
        eq!("transactions", gtxs, w.graph().full_txs().map(|t| t.txid).collect::<BTreeSet<_>>());
        // canonical transactions
        let mut want: BTreeMap<Txid, Vec<Option<TxStatus>>> = BTreeMap::new();
        for c in rows(&e["canon"]) {
            let st: Vec<Option<TxStatus>> = rows(&c["in"])
                .iter()
                .map(|b| {
                    let (block, h) = &u.blocks[n(b) - 1];
                    Some(TxStatus { height: Height::from_consensus(*h).unwrap(), time: Time::from_consensus(block.header.time).unwrap() })
                })
                .collect();
            want.insert(u.txid(&c["tx"]), if st.is_empty() { vec![None] } else { st });
        }
        let got: Vec<(Txid, Option<TxStatus>)> = w.canonical_txs().map(|(t, s)| (t.compute_txid(), s)).collect();
        eq!("canonical transactions", want.keys().copied().collect::<Vec<_>>(), {
            let mut v: Vec<Txid> = got.iter().map(|x| x.0).collect();
            v.sort();
            v
        });
        for (t, st) in &got {
            let ok = want.get(t).is_some_and(|w| w.contains(st));
            if !ok {
                r.bad(s, &format!("status of a canonical transaction {when}"), format!("{:?}", want.get(t)), format!("{st:?}"));
            }
        }
        // money
        let coin = |x: &Value| OutPoint::new(u.txid(&x[0]), n(&x[1]) as u32);
        let txout = |o: &OutPoint| u.txs[u.by_txid[&o.txid]].output[o.vout as usize].clone();
        let sum = |v: &[&Value]| v.iter().map(|x| txout(&coin(x)).value).sum::<Amount>();
        let settled: Vec<&Value> = rows(&e["settled"]).iter().collect();
        let (change, other): (Vec<&Value>, Vec<&Value>) = rows(&e["pending"]).iter().partition(|x| x[2] == "0");
        let b = w.balance();
        eq!("confirmed balance", sum(&settled), b.confirmed);
        eq!("pending change", sum(&change), b.trusted_pending);
        eq!("pending balance", sum(&other), b.untrusted_pending);
        eq!("immature balance", Amount::ZERO, b.immature);
        let coins: BTreeSet<OutPoint> = settled.iter().chain(&change).chain(&other).map(|x| coin(x)).collect();
        let spks: BTreeSet<Vec<u8>> = coins.iter().map(|o| txout(o).script_pubkey.into_bytes()).collect();
        match guard(|| w.unspent_spks()) {
            Ok(v) => {
                eq!("unspent scripts", spks, v.iter().map(|x| x.to_vec()).collect::<BTreeSet<_>>());
            }
            Err(p) => r.bad(s, &format!("unspent scripts {when}"), "no panic".into(), p),
        }
        let spend = match signers::get_spend_sk(&self.k.descriptor, self.k.network) {
            Ok(k) => k,
            Err(e) => {
                r.bad(s, "spend key", "the key".into(), format!("{e:?}"));
                self.k.spend
            }
        };
        eq!("spend key", self.k.spend, spend);
        let keymap = signers::populate_sp_keymap(&spend, w.indexer().index(), self.k.network);
        match guard(|| w.all_candidates()) {
            Ok(c) => {
                let mut got: Vec<OutPoint> = c.inputs().map(|i| i.outpoint).collect();
                got.sort();
                eq!("spend candidates", coins.iter().copied().collect::<Vec<_>>(), got);
                r.check(s, &format!("no candidate is forced {when}"), c.must_select.is_empty());
                for i in c.inputs() {
                    let spk = i.txout.script_pubkey.clone();
                    r.check(s, &format!("candidate output {when}"), u.by_txid.contains_key(&i.outpoint.txid) && txout(&i.outpoint) == i.txout);
                    r.check(s, &format!("candidate status {when}"), want.get(&i.outpoint.txid).is_some_and(|w| w.contains(&i.status)));
                    let t = i.plan.witness_template();
                    let single = match t.as_slice() {
                        [Placeholder::SchnorrSigPk(k, SchnorrSigType::KeySpend { .. }, _)] => Some(k.to_string()),
                        _ => None,
                    };
                    eq!("a candidate is spent with one signature of its key", Some(hcore::hex(&spk.as_bytes()[2..])), single);
                    let key = hcore::bitcoin::XOnlyPublicKey::from_slice(&spk.as_bytes()[2..]).unwrap();
                    let secp = Secp256k1::new();
                    let pk = keymap.get(&key).map(|k| (k.network, k.inner.x_only_public_key(&secp).0));
                    eq!("signing key of a candidate", Some((self.k.network.into(), key)), pk);
                }
            }
            Err(p) => r.bad(s, &format!("spend candidates {when}"), "no panic".into(), p),
        }
        for (x, k) in &keymap {
            let secp = Secp256k1::new();
            let spk = ScriptBuf::from_bytes([vec![0x51, 0x20], x.serialize().to_vec()].concat());
            let mine = outs.keys().any(|o| txout(o).script_pubkey == spk);
            r.check(s, &format!("signing keys are for own outputs {when}"), mine && k.inner.x_only_public_key(&secp).0 == *x);
        }
        // looking changes nothing
        r.check(s, &format!("looking stages nothing {when}"), staged_before.as_ref() == w.staged());
        match e["stage"].as_str().unwrap() {
            "empty" => r.check(s, &format!("nothing is staged {when}"), w.staged().is_none()),
            "full" => r.check(s, &format!("changes are staged {when}"), w.staged().is_some()),
            _ => true,
        };
        r.violations.len() == before
    }
}

/// What was stored may come back damaged: it is refused, or read as something else, without a panic.
fn damaged<T: serde::Serialize + serde::de::DeserializeOwned>(r: &mut Report, s: &Value, rng: &mut Rng, c: &T) {
    let (json, mut b) = (serde_json::to_string(c).unwrap(), bincode::serialize(c).unwrap());
    let res = match rng.below(3) {
        0 => {
            r.count("damaged change sets (JSON)");
            // hex digits, numbers and names
            let mut v: Vec<u8> = json.into_bytes();
            for _ in 0..rng.range(1, 3) {
                let i = rng.below(v.len());
                match rng.below(3) {
                    0 => {
                        v.remove(i);
                        if v.is_empty() {
                            break;
                        }
                    }
                    1 => v[i] = *rng.pick(b"09afz-,]}\"x"),
                    _ => v.insert(i, *rng.pick(b"09,[1f")),
                }
            }
            guard(|| serde_json::from_slice::<T>(&v).is_err()).map(|_| true)
        }
        1 => {
            r.count("damaged change sets (cut short)");
            let n = rng.below(b.len());
            guard(|| bincode::deserialize::<T>(&b[..n]).is_err())
        }
        _ => {
            r.count("damaged change sets (binary)");
            for _ in 0..rng.range(1, 3) {
                let i = rng.below(b.len());
                b[i] = *rng.pick(&[0u8, 1, 0x7f, 0x80, 0xff, b[i] ^ 1]);
            }
            guard(|| bincode::deserialize::<T>(&b).is_err()).map(|_| true)
        }
    };
    r.eq(s, "a damaged change set is refused or read without a panic", &Ok(true), &res);
}

fn serial(r: &mut Report, s: &Value, rng: &mut Rng, c: ChangeSet) -> ChangeSet {
    if rng.chance(1, 4) {
        damaged(r, s, rng, &c);
    }
    let back = match rng.below(3) {
        0 => {
            r.count("change sets through JSON");
            guard(|| serde_json::to_string(&c).and_then(|j| serde_json::from_str::<ChangeSet>(&j)).map_err(|e| e.to_string())).and_then(|x| x)
        }
        1 => {
            r.count("change sets through binary");
            guard(|| bincode::serialize(&c).and_then(|j| bincode::deserialize(&j)).map_err(|e| e.to_string())).and_then(|x| x)
        }
        _ => return c,
    };
    match back {
        Ok(b) => {
            r.check(s, "a change set survives serialization", b == c);
            b
        }
        Err(e) => {
            r.bad(s, "a change set survives serialization", "the change set".into(), e);
            c
        }
    }
}

/// Merges a run of change sets in a random grouping.
fn grouped(r: &mut Report, s: &Value, rng: &mut Rng, cs: &[ChangeSet]) -> ChangeSet {
    if cs.len() <= 1 {
        let c = cs.first().cloned().unwrap_or_default();
        return serial(r, s, rng, c);
    }
    let cut = rng.range(1, cs.len() - 1);
    let mut a = grouped(r, s, rng, &cs[..cut]);
    if rng.chance(1, 4) {
        // stored after nothing
        let mut z = ChangeSet::default();
        z.merge(a.clone());
        r.check(s, "merging into an empty change set gives the change set", z == a);
        a = z;
    }
    let b = grouped(r, s, rng, &cs[cut..]);
    if rng.chance(1, 5) {
        a.merge(ChangeSet::default());
    }
    a.merge(b);
    serial(r, s, rng, a)
}

fn rebuild(r: &mut Report, s: &Value, c: ChangeSet, when: &str) -> Option<SpWallet> {
    match guard(|| SpWallet::try_from(c)) {
        Ok(Ok(w)) => Some(w),
        Ok(Err(())) => {
            r.bad(s, &format!("rebuilding {when}"), "a wallet".into(), "an error".into());
            None
        }
        Err(p) => {
            r.bad(s, &format!("rebuilding {when}"), "a wallet".into(), p);
            None
        }
    }
}

/// Incomplete change sets do not make a wallet.
fn incomplete(r: &mut Report, s: &Value, c: &ChangeSet) {
    let v = serde_json::to_value(c).unwrap();
    for (i, cut) in [
        &(|v: &mut Value| v["network"] = Value::Null) as &dyn Fn(&mut Value),
        &|v: &mut Value| v["indexer"]["scan_sk"] = Value::Null,
        &|v: &mut Value| v["indexer"]["spend_pk"] = Value::Null,
        &|v: &mut Value| {
            if let Some(b) = v["chain"]["blocks"].as_object_mut() {
                b.remove("0");
            }
        },
    ]
    .iter()
    .enumerate()
    {
        let mut x = v.clone();
        cut(&mut x);
        let Ok(c) = serde_json::from_value::<ChangeSet>(x) else {
            r.count("incomplete change sets that cannot be read");
            continue;
        };
        r.count("incomplete change sets");
        let res = guard(|| SpWallet::try_from(c).is_err());
        r.eq(s, &format!("an incomplete change set is refused (part {i})"), &Ok(true), &res);
    }
}

fn run(prop: &str, seed: u64, s: &Value, e: &Value, r: &mut Report) {
    let salt = s["salt"].as_str().unwrap();
    let env = Env::new(seed, salt);
    let mut rng = Rng::new(seed, &format!("run/{salt}/{}", s["id"]));
    let k = keys(&env, s);
    let u = Uni::new(&env, s, k.scan, k.spend);
    let genesis = if rng.chance(1, 2) { genesis_block(k.network).block_hash() } else { BlockHash::from_byte_array(env.blob("genesis", 32).try_into().unwrap()) };
    let birthday = match rng.below(3) {
        0 => BlockId { height: 0, hash: genesis },
        _ => BlockId { height: rng.below(900_000) as u32, hash: BlockHash::from_byte_array(env.blob("birthday", 32).try_into().unwrap()) },
    };
    let x = Run { s, env, u, k, genesis, birthday };
    if prop == "C17" && n(&s["id"]) < 12 {
        let bad = |d: &str| SpWallet::new(x.birthday, x.genesis, d, x.k.network).err();
        r.check(s, "a public descriptor is refused", matches!(bad(&x.k.public), Some(SpWalletError::PrivateDataNotAvailable)));
        let d = x.k.descriptor.replace("tr(", "wpkh(");
        r.check(s, "another kind of descriptor is refused", matches!(bad(&d), Some(SpWalletError::NonTaprootDescriptor)));
        let (own, wif) = (&x.k.descriptor, bdk_sp::bitcoin::PrivateKey::new(x.k.spend, x.k.network));
        let unfit = ["".into(), "tr()".into(), own[3..own.len() - 1].to_string(), own[..own.len() - 2].to_string(), format!("tr({wif})"),
            own.replace(')', "/<0;1>/*)"), x.k.public.replace("pub", "pbu")];
        for d in unfit {
            r.eq(s, &format!("the descriptor {d:?} is refused"), &Ok(true), &guard(|| bad(&d).is_some()));
            let k = guard(|| signers::get_spend_sk(&d, x.k.network).is_err());
            r.eq(s, &format!("the descriptor {d:?} gives no key"), &Ok(true), &k);
        }
        let k = guard(|| signers::get_spend_sk(&x.k.public, x.k.network).is_err());
        r.eq(s, "a public descriptor gives no key", &Ok(true), &k);
    }
    let (ops, states) = (rows(&s["ops"]), rows(&e["states"]));
    let mut w = match guard(|| x.create()) {
        Ok(w) => w,
        Err(p) => return r.bad(s, "creating a wallet", "no panic".into(), p),
    };
    r.check(s, "a new wallet has staged its changes", w.staged().is_some());
    let mut taken: Vec<ChangeSet> = vec![];
    let mut last: Option<usize> = None;
    for (i, (o, st)) in ops.iter().zip(states).enumerate() {
        let op = o["op"].as_str().unwrap();
        r.count(&format!("step {op}"));
        match op {
            "take" => {
                let was = w.staged().cloned();
                let by_mut = rng.chance(1, 2).then(|| w.staged_mut().map(|c| c.clone())).unwrap_or(was.clone());
                let c = w.take_staged();
                r.check(s, "what is taken is what was staged", c == was && by_mut == was);
                if let Some(c) = c {
                    if !taken.is_empty() && rng.chance(1, 6) {
                        taken.push(c.clone()); // stored twice
                    }
                    taken.push(c);
                }
                r.check(s, "nothing is staged after taking", w.staged().is_none() && w.staged_mut().is_none() && w.take_staged().is_none());
                last = Some(i);
            }
            "crash" => {
                if taken.is_empty() {
                    w = x.create();
                    last = None;
                } else {
                    let c = grouped(r, s, &mut rng, &taken);
                    match rebuild(r, s, c, "after a crash") {
                        Some(b) => w = b,
                        None => return,
                    }
                    r.count("histories continued after a crash");
                }
            }
            _ => {
                if let Err(p) = x.step(&mut w, o) {
                    return r.bad(s, &format!("step {op}"), "success".into(), p);
                }
            }
        }
        if !rows(&st["settled"]).is_empty() {
            r.count("states with confirmed coins");
        }
        if !rows(&st["pending"]).is_empty() {
            r.count("states with pending coins");
        }
        if !x.compare(r, &mut w, st, &format!("after {op}")) {
            return;
        }
        if prop == "C17" {
            if rng.chance(1, 5) && !matches!(op, "take" | "crash") && !(x.step(&mut w, o).is_ok() && x.compare(r, &mut w, st, &format!("after repeating {op}"))) {
                return;
            }
            continue;
        }
        // a crash here
        if let Some(l) = last {
            if rng.chance(1, 3) || i + 1 == ops.len() {
                r.count("crash points");
                let c = grouped(r, s, &mut rng, &taken);
                let Some(mut b) = rebuild(r, s, c.clone(), "from what was stored") else { return };
                let mut view = states[l].clone();
                view["stage"] = json!("any");
                if !x.compare(r, &mut b, &view, "rebuilt from what was stored") {
                    return;
                }
                if rng.chance(1, 4) {
                    incomplete(r, s, &c);
                }
                if taken.len() > 1 && last.is_some() {
                    // later change sets alone lack the first
                    let c = grouped(r, s, &mut rng, &taken[1..]);
                    if c != taken[0] {
                        let again = taken[1..].contains(&taken[0]);
                        let res = guard(|| SpWallet::try_from(c).is_err());
                        r.check(s, "later change sets alone are refused", again || res == Ok(true) || w_has_all(&taken[1..]));
                    }
                }
                let res = guard(|| SpWallet::try_from(ChangeSet::default()).is_err());
                r.check(s, "the empty change set is refused", res == Ok(true));
            }
        }
    }
}

/// After a crash the restored wallet may stage everything again.
fn w_has_all(cs: &[ChangeSet]) -> bool {
    cs.iter().any(|c| serde_json::to_value(c).is_ok_and(|v| !v["network"].is_null()))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "gen" => {
            let v = generate(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
            std::fs::write(&a[5], v.iter().map(|x| format!("{x}\n")).collect::<String>()).unwrap();
        }
        "run" => {
            let seed: u64 = a[3].parse().unwrap();
            let prop = a[2].clone();
            each(&a[4], &a[5], &a[6], |s, e, r| run(&prop, seed, s, e, r));
        }
        x => panic!("unknown command {x}"),
    }
}
