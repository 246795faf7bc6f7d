//! C19: filters in, matches and sync points out, against SPOracle.tla.
use bdk_sp_oracles::filters::kyoto::{FilterEvent, FilterSubscriber, UpdateError};
use bdk_sp_oracles::tweaks::blindbit::{BlindbitClient, BlindbitSubscriber, TweakEvent};
use bip157::tokio;
use bip157::{Event, HeaderCheckpoint, IndexedFilter, SyncUpdate};
use hcore::bitcoin::bip158::BlockFilter;
use hcore::bitcoin::block::{Header, Version};
use hcore::bitcoin::hashes::Hash;
use hcore::bitcoin::secp256k1::{PublicKey, SecretKey};
use hcore::bitcoin::{Amount, Block, BlockHash, CompactTarget, OutPoint, ScriptBuf, Sequence, TxIn, TxMerkleNode, TxOut, Txid, Witness};
use hcore::serde_json::{json, Value};
use hcore::universe::{label_tweak, output_tweak, spk_of, LABELS};
use hcore::{each, sc_add, sc_mul, Env, Report, Rng};
use indexer::v2::SpIndexerV2;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};

const LIMIT: usize = 999;
const FAILURES: [&str; 8] = ["500", "404", "garbage", "notpoint", "cut", "drop", "object", "wrongtype"];

// ------------------------------------------------------------------ scenarios
fn generate(seed: u64, n: usize) -> Vec<Value> {
    (0..n)
        .map(|id| {
            let mut rng = Rng::new(seed, &format!("C19/{id}"));
            if id < 4 {
                return many(&mut rng, id);
            }
            if id % 60 == 4 {
                return wide(&mut rng, id);
            }
            let labels: Vec<&str> = LABELS.iter().copied().filter(|_| rng.chance(1, 2)).collect();
            let unspent: Vec<usize> = (1..=rng.below(4)).collect();
            let nb = rng.range(1, 12);
            let first = 100 + rng.below(3);
            let birthday = 100 + rng.below(4);
            let faulty = rng.chance(1, 3);
            let mut top = first;
            let mut blocks = vec![];
            // what was paid so far may be spent later
            let mut paid: Vec<Value> = vec![];
            for b in 0..nb {
                // sometimes a block replaces one of the last few
                let height = if b > 0 && rng.chance(1, 5) { top.saturating_sub(rng.below(3)).max(first) } else { top + 1 };
                top = height;
                let tweaks: Vec<usize> = (0..rng.below(5)).map(|_| rng.range(1, 9)).collect();
                let mut has: Vec<Value> = vec![];
                for _ in 0..rng.below(4) {
                    let t = if !tweaks.is_empty() && rng.chance(3, 4) { *rng.pick(&tweaks) } else { rng.range(1, 9) };
                    match rng.below(9) {
                        0 => has.push(json!(["d", t, "", rng.below(2)])),
                        1 => has.push(json!(["d", t, *rng.pick(&LABELS), 0])),
                        2 if !unspent.is_empty() => has.push(json!(["u", *rng.pick(&unspent)])),
                        3 | 7 if !paid.is_empty() => has.push(rng.pick(&paid).clone()),
                        8 if !paid.is_empty() => has.push(paid[paid.len() - 1].clone()),
                        4 => {
                            // several outputs in one transaction
                            let many = if rng.chance(1, 3) { rng.range(4, 12) } else { rng.range(2, 3) };
                            for k in 0..many {
                                let m = if rng.chance(1, 2) { "" } else { *rng.pick(&LABELS) };
                                has.push(json!(["d", t, m, k]));
                            }
                        }
                        _ => has.push(json!(["x", rng.range(1, 9)])),
                    }
                }
                paid.extend(has.iter().filter(|x| x[0] == "d").cloned());
                let answer = if faulty && rng.chance(1, 2) { *rng.pick(&FAILURES) } else { "ok" };
                blocks.push(json!({"height": height, "tweaks": tweaks, "has": has, "answer": answer, "delay": rng.below(8)}));
            }
            let mut events = vec![];
            for b in 1..=nb {
                events.push(json!({"ev": "filter", "b": b}));
                if rng.chance(1, 12) {
                    events.push(json!({"ev": "filter", "b": rng.range(1, b)}));
                }
                if rng.chance(1, 3) {
                    events.push(json!({"ev": "tip", "b": b}));
                    if rng.chance(1, 6) {
                        events.push(json!({"ev": "restart", "b": 0}));
                    }
                }
            }
            events.push(json!({"ev": "tip", "b": nb}));
            json!({"id": id, "salt": format!("C19/{id}"), "labels": labels, "unspent": unspent, "birthday": birthday,
                "limit": LIMIT, "blocks": blocks, "events": events, "base": rng.below(4)})
        })
        .collect()
}

/// More filters than are held at once.
fn many(rng: &mut Rng, id: usize) -> Value {
    let n = [LIMIT + 1, LIMIT + 30, 2 * LIMIT + 12, LIMIT][id];
    let mut blocks = vec![];
    let mut paid: Vec<Value> = vec![];
    for b in 0..n {
        let mut has = vec![];
        let mut tweaks: Vec<usize> = vec![];
        // every block counts where one batch ends and the next begins, and around the number of requests made at once
        let edge = [LIMIT, 200, 400].iter().any(|e| b + 4 > *e && b < e + 5);
        if b % 97 == 3 || b + 1 == n || b == 0 || edge {
            tweaks.push(rng.range(1, 9));
            // near an edge always one that counts
            has.push(json!(["d", tweaks[0], "", if edge { 0 } else { rng.below(2) }]));
            paid.push(has[0].clone());
        } else if b % 50 == 7 {
            has.push(json!(["u", 1]));
        } else if b % 50 == 11 {
            // spends what an earlier block of the batch, or of an earlier batch, paid
            has.push(rng.pick(&paid).clone());
        } else if b % 50 == 12 {
            has.push(paid[paid.len() - 1].clone());
        }
        blocks.push(json!({"height": 100 + b, "tweaks": tweaks, "has": has, "answer": "ok", "delay": 0}));
    }
    let mut events: Vec<Value> = (1..=n).map(|b| json!({"ev": "filter", "b": b})).collect();
    if id == 2 {
        // the sync point of an earlier scan
        events.insert(rng.range(2, 40), json!({"ev": "tip", "b": 1}));
    }
    events.push(json!({"ev": "tip", "b": n}));
    json!({"id": id, "salt": format!("C19/{id}"), "labels": ["0", "7"], "unspent": [1], "birthday": 100,
        "limit": LIMIT, "blocks": blocks, "events": events, "base": 0})
}

/// Blocks with many tweaks, transactions with many outputs, many coins to watch for.
fn wide(rng: &mut Rng, id: usize) -> Value {
    let labels = [rng.pick(&LABELS)];
    let mut blocks = vec![];
    let mut block = |tweaks: Vec<usize>, has: Vec<Value>| {
        let b = blocks.len();
        blocks.push(json!({"height": 100 + b, "tweaks": tweaks, "has": has, "answer": "ok", "delay": 0}));
        b + 1
    };
    let mut events = vec![];
    let (tweakn, kn, coins);
    if id % 120 == 4 {
        // only one of the many tweaks of a block is of a payment
        (tweakn, kn, coins) = (rng.range(300, 420), 2, 2);
        let mut paid = vec![];
        for _ in 0..6 {
            let t = if rng.chance(1, 2) { tweakn } else { rng.range(1, tweakn) };
            let m = if rng.chance(1, 2) { "" } else { *labels[0] };
            paid.push(json!(["d", t, m, 0]));
            block((1..=tweakn).collect(), vec![paid[paid.len() - 1].clone(), json!(["x", 1])]);
            block(vec![], vec![rng.pick(&paid).clone(), json!(["x", 2])]);
        }
    } else {
        // every output of a large transaction is spent, and so are the oldest coins
        (tweakn, kn, coins) = (9, rng.range(13, 40), rng.range(50, 300));
        let mut spends: Vec<Value> = (1..=coins).filter(|i| *i < 4 || rng.chance(1, 20)).map(|i| json!(["u", i])).collect();
        for t in [rng.range(1, 4), rng.range(5, 9)] {
            let paid: Vec<Value> = (0..kn).map(|k| json!(["d", t, if rng.chance(1, 4) { *labels[0] } else { "" }, k])).collect();
            block(vec![t], paid.clone());
            spends.extend(paid);
        }
        for i in (1..spends.len()).rev() {
            spends.swap(i, rng.below(i + 1));
        }
        for x in spends {
            block(vec![], vec![x, json!(["x", 3])]);
        }
    }
    for b in 1..=blocks.len() {
        events.push(json!({"ev": "filter", "b": b}));
        if rng.chance(1, 15) || b == blocks.len() {
            events.push(json!({"ev": "tip", "b": b}));
        }
    }
    json!({"id": id, "salt": format!("C19/{id}"), "labels": labels, "unspent": (1..=coins).collect::<Vec<_>>(), "birthday": 100,
        "limit": LIMIT, "blocks": blocks, "events": events, "base": rng.below(4), "tweakn": tweakn, "kn": kn})
}

// ------------------------------------------------------------------- universe
struct World {
    scan: SecretKey,
    spend: SecretKey,
    tweaks: BTreeMap<usize, PublicKey>,
    scripts: HashMap<String, ScriptBuf>,
    /// hash, height, filter
    blocks: Vec<(BlockHash, u32, Vec<u8>)>,
}
fn n(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn rows(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap()
}
impl World {
    fn new(env: &Env, s: &Value) -> World {
        let (scan, spend) = (env.base("scan"), env.base("spend"));
        let mut w = World { scan, spend, tweaks: BTreeMap::new(), scripts: HashMap::new(), blocks: vec![] };
        let size = |name: &str, default: usize| s[name].as_u64().map_or(default, |x| x as usize);
        let has = || rows(&s["blocks"]).iter().flat_map(|b| rows(&b["has"]));
        let mut names: BTreeSet<&str> = rows(&s["labels"]).iter().map(|m| m.as_str().unwrap()).collect();
        names.extend(has().filter(|x| x[0] == "d").map(|x| x[2].as_str().unwrap()));
        names.insert("");
        for t in 1..=size("tweakn", 9) {
            let k = env.base(&format!("tweak/{t}"));
            w.tweaks.insert(t, env.point(&k));
            let shared = env.point(&sc_mul(Some(k), Some(scan)).unwrap());
            for k in 0..size("kn", 12) as u32 {
                let base = sc_add(Some(spend), Some(output_tweak(&shared, k))).unwrap();
                for m in &names {
                    let sk = if m.is_empty() { base } else { sc_add(Some(base), Some(label_tweak(&scan, m.parse().unwrap()))).unwrap() };
                    w.scripts.insert(json!(["d", t, m, k]).to_string(), spk_of(env, &sk));
                }
            }
            w.scripts.insert(json!(["x", t]).to_string(), spk_of(env, &env.base(&format!("other/{t}"))));
        }
        for t in 1..=rows(&s["unspent"]).len().max(9) {
            w.scripts.insert(json!(["u", t]).to_string(), spk_of(env, &env.base(&format!("coin/{t}"))));
        }
        for (i, b) in rows(&s["blocks"]).iter().enumerate() {
            let mut outs = vec![TxOut { value: Amount::ZERO, script_pubkey: ScriptBuf::from_bytes(vec![0x6a, 1, 7]) }];
            let mut ins = vec![];
            let mut prev: HashMap<OutPoint, ScriptBuf> = HashMap::new();
            for (j, x) in rows(&b["has"]).iter().enumerate() {
                let spk = w.scripts[&x.to_string()].clone();
                // a coin appears because it is spent
                if x[0] == "u" {
                    let op = OutPoint::new(Txid::from_byte_array(env.blob(&format!("op/{i}/{j}"), 32).try_into().unwrap()), j as u32);
                    prev.insert(op, spk);
                    ins.push(TxIn { previous_output: op, script_sig: ScriptBuf::new(), sequence: Sequence::MAX, witness: Witness::new() });
                } else {
                    outs.push(TxOut { value: Amount::from_sat(5000), script_pubkey: spk });
                }
            }
            let coinbase = TxIn { previous_output: OutPoint::null(), script_sig: ScriptBuf::from_bytes(vec![1, 1]), sequence: Sequence::MAX, witness: Witness::new() };
            let mut txdata = vec![hcore::tx(vec![coinbase], outs)];
            if !ins.is_empty() {
                txdata.push(hcore::tx(ins, vec![TxOut { value: Amount::ZERO, script_pubkey: ScriptBuf::from_bytes(vec![0x6a, 1, 8]) }]));
            }
            let mut header = Header {
                version: Version::TWO,
                prev_blockhash: BlockHash::all_zeros(),
                merkle_root: TxMerkleNode::from_byte_array(env.blob(&format!("root/{i}"), 32).try_into().unwrap()),
                time: 1_600_000_000,
                bits: CompactTarget::from_consensus(0x207fffff),
                nonce: i as u32,
            };
            // filters match a few scripts that are not in the block: of none of those here
            let inside: HashSet<&ScriptBuf> = rows(&b["has"]).iter().map(|x| &w.scripts[&x.to_string()]).collect();
            let outside: Vec<&ScriptBuf> = w.scripts.values().filter(|x| !inside.contains(x)).collect();
            loop {
                let block = Block { header, txdata: txdata.clone() };
                let filter = BlockFilter::new_script_filter(&block, |o| {
                    prev.get(o).cloned().ok_or(hcore::bitcoin::bip158::Error::UtxoMissing(*o))
                })
                .unwrap();
                let hash = block.block_hash();
                if filter.match_any(&hash, &mut outside.iter().map(|x| x.as_bytes())).unwrap() {
                    header.time += 1;
                    continue;
                }
                w.blocks.push((hash, n(&b["height"]) as u32, filter.content));
                break;
            }
        }
        w
    }
}

// --------------------------------------------------------------------- server
struct Server {
    prefix: String,
    answers: Mutex<HashMap<u32, (String, String, u64)>>,
    seen: Mutex<Vec<u32>>,
    strange: Mutex<Vec<String>>,
}
async fn serve(sv: Arc<Server>, listener: tokio::net::TcpListener) {
    loop {
        let Ok((mut sock, _)) = listener.accept().await else { return };
        let sv = sv.clone();
        tokio::spawn(async move {
            let mut req = vec![];
            let mut buf = [0u8; 2048];
            while !req.windows(4).any(|w| w == b"\r\n\r\n") {
                match sock.read(&mut buf).await {
                    Ok(k) if k > 0 => req.extend(&buf[..k]),
                    _ => return,
                }
            }
            let line = String::from_utf8_lossy(&req).lines().next().unwrap_or("").to_string();
            let target = line.split(' ').nth(1).unwrap_or("").to_string();
            let path = target.split('?').next().unwrap().to_string();
            let reply = |status: &str, body: &str, len: usize| {
                format!("HTTP/1.1 {status}\r\nContent-Type: application/json\r\nContent-Length: {len}\r\nConnection: close\r\n\r\n{body}")
            };
            let good = |body: &str| reply("200 OK", body, body.len());
            let rest = path.strip_prefix(&sv.prefix).map(|x| x.to_string());
            let out = match rest.as_deref() {
                Some("block-height") => good(r#"{"block_height": 7, "height": 812345}"#),
                Some("info") => good(
                    r#"{"network":"signet","height":812345,"tweaks_only":false,"tweaks_full_basic":true,"tweaks_full_with_dust_filter":true,"tweaks_cut_through_with_dust_filter":false}"#,
                ),
                Some(p) if p.strip_prefix("tweaks/").is_some_and(|h| h.parse::<u32>().is_ok()) => {
                    let h: u32 = p["tweaks/".len()..].parse().unwrap();
                    sv.seen.lock().unwrap().push(h);
                    let a = sv.answers.lock().unwrap().get(&h).cloned();
                    let (kind, body, delay) = a.unwrap_or(("404".into(), String::new(), 0));
                    if delay > 0 {
                        tokio::time::sleep(Duration::from_millis(delay)).await;
                    }
                    match kind.as_str() {
                        "ok" => good(&body),
                        "500" => reply("500 Internal Server Error", "oops", 4),
                        "404" => reply("404 Not Found", "{\"error\":\"no such block\"}", 25),
                        "garbage" => good("[\"02"),
                        "notpoint" => good(&format!("[\"02{}\"]", "ff".repeat(32))),
                        "cut" => reply("200 OK", "[", body.len() + 10),
                        "drop" => return,
                        "object" => good("{\"tweaks\":[]}"),
                        "wrongtype" => good("[1, 2]"),
                        x => panic!("unknown answer {x}"),
                    }
                }
                _ => {
                    sv.strange.lock().unwrap().push(line.clone());
                    reply("404 Not Found", "", 0)
                }
            };
            let _ = sock.write_all(out.as_bytes()).await;
            let _ = sock.shutdown().await;
        });
    }
}

// --------------------------------------------------------------------- replay
/// The subscriber opens its database in the current directory.
static CWD: Mutex<()> = Mutex::new(());

fn event(w: &World, e: &Value) -> Event {
    let (hash, height, filter) = &w.blocks[n(&e["b"]) - 1];
    match e["ev"].as_str().unwrap() {
        "filter" => Event::IndexedFilter(IndexedFilter::new(*height, *hash, filter.clone())),
        "tip" => Event::FiltersSynced(SyncUpdate { tip: HeaderCheckpoint { height: *height, hash: *hash }, recent_history: BTreeMap::new() }),
        x => panic!("unknown event {x}"),
    }
}

struct Live {
    events: UnboundedSender<Event>,
    out: UnboundedReceiver<TweakEvent>,
    filters: tokio::task::JoinHandle<Result<(), UpdateError>>,
    tweaks: tokio::task::JoinHandle<()>,
}
fn start(w: &World, s: &Value, url: &str, dir: &PathBuf) -> Result<Live, String> {
    let (event_tx, event_rx) = unbounded_channel();
    let (changes_tx, changes_rx) = unbounded_channel::<FilterEvent>();
    let (out_tx, out_rx) = unbounded_channel();
    let secp = hcore::bitcoin::secp256k1::Secp256k1::new();
    let mut ix = SpIndexerV2::new(w.scan, w.spend.public_key(&secp));
    for m in rows(&s["labels"]) {
        let _ = ix.add_label(m.as_str().unwrap().parse().unwrap());
    }
    let unspent: Vec<[u8; 34]> =
        rows(&s["unspent"]).iter().map(|i| w.scripts[&json!(["u", i]).to_string()].as_bytes().try_into().unwrap()).collect();
    let guard = CWD.lock().unwrap();
    let old = std::env::current_dir().unwrap();
    std::env::set_current_dir(dir).unwrap();
    let made = hcore::guard(|| BlindbitSubscriber::new(unspent, ix, url.to_string(), changes_rx, out_tx));
    std::env::set_current_dir(old).unwrap();
    drop(guard);
    let (mut sub, buffer) = made?.map_err(|e| format!("{e:?}"))?;
    let mut filters = FilterSubscriber::new(buffer, event_rx, changes_tx, n(&s["birthday"]) as u32);
    Ok(Live {
        events: event_tx,
        out: out_rx,
        filters: tokio::spawn(async move { filters.run().await }),
        tweaks: tokio::spawn(async move { sub.run().await }),
    })
}

async fn run(s: Value, e: Value, env: Env, dir: PathBuf) -> Report {
    let mut r = Report::default();
    let s = &s;
    let w = World::new(&env, s);
    let listener = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let port = listener.local_addr().unwrap().port();
    let (base, prefix) = match n(&s["base"]) {
        0 => ("", "/"),
        1 => ("/", "/"),
        2 => ("/api/v1", "/api/v1/"),
        _ => ("/api/", "/api/"),
    };
    let url = format!("http://127.0.0.1:{port}{base}");
    let sv = Arc::new(Server { prefix: prefix.into(), answers: Mutex::default(), seen: Mutex::default(), strange: Mutex::default() });
    let server = tokio::spawn(serve(sv.clone(), listener));
    // the server answers for the block at a height that is the node's at the time
    let answer = |b: usize| {
        let x = &s["blocks"][b - 1];
        let list: Vec<Value> = rows(&x["tweaks"]).iter().map(|t| json!(w.tweaks[&n(t)].to_string())).collect();
        (x["answer"].as_str().unwrap().to_string(), json!(list).to_string(), 2 * n(&x["delay"]) as u64)
    };
    let mut live = match start(&w, s, &url, &dir) {
        Ok(l) => l,
        Err(x) => {
            r.bad(s, "starting a subscriber", "success".into(), x);
            return r;
        }
    };
    let mut sent = rows(&e["sent"]).iter();
    let mut events = rows(&s["events"]).iter().peekable();
    'all: while events.peek().is_some() {
        // up to and including the next tip, then wait for it
        let mut tip = false;
        for ev in events.by_ref() {
            if ev["ev"] == "restart" {
                break;
            }
            if ev["ev"] == "filter" {
                let b = n(&ev["b"]);
                sv.answers.lock().unwrap().insert(w.blocks[b - 1].1, answer(b));
            }
            live.events.send(event(&w, ev)).unwrap();
            if ev["ev"] == "tip" {
                tip = true;
                break;
            }
        }
        if !tip {
            // restart: everything sent so far was processed
            r.count("restarts");
            drop(live.events);
            let end = tokio::time::timeout(Duration::from_secs(20), live.filters).await;
            r.check(s, "the filter side ends with the node", matches!(end, Ok(Ok(Err(UpdateError::NodeStopped)))));
            let end = tokio::time::timeout(Duration::from_secs(20), live.tweaks).await;
            r.check(s, "the tweak side ends with the filter side", matches!(end, Ok(Ok(()))));
            r.check(s, "nothing is sent after the last sync point", live.out.try_recv().is_err());
            live = match start(&w, s, &url, &dir) {
                Ok(l) => l,
                Err(x) => {
                    r.bad(s, "restarting a subscriber", "success".into(), x);
                    return r;
                }
            };
            continue;
        }
        let mut open: BTreeSet<usize> = BTreeSet::new();
        let mut x = sent.next().expect("a tip was sent");
        if x["m"] == "restart" {
            x = sent.next().expect("a tip was sent");
        }
        loop {
            if x["m"] == "tip" {
                let b = n(&x["b"]);
                match tokio::time::timeout(Duration::from_secs(20), live.out.recv()).await {
                    Ok(Some(TweakEvent::Synced(at))) => {
                        r.eq(s, "the sync point", &(w.blocks[b - 1].1, w.blocks[b - 1].0), &(at.height, at.hash));
                        r.count("sync points");
                        if !open.is_empty() {
                            r.count("payments the server did not reveal");
                            r.bad(
                                s,
                                "a payment in a block whose tweaks could not be fetched is reported before the sync point",
                                format!("blocks {open:?}"),
                                "the sync point".into(),
                            );
                        }
                    }
                    Ok(Some(TweakEvent::Matches((hash, _)))) if w.blocks.iter().position(|x| x.0 == hash).is_some_and(|b| open.remove(&(b + 1))) => {
                        continue;
                    }
                    Ok(Some(TweakEvent::Matches((hash, _)))) => {
                        let b = w.blocks.iter().position(|x| x.0 == hash).map(|x| x + 1);
                        r.bad(s, "only relevant blocks are reported, each once", "the sync point".into(), format!("a match of block {b:?}"));
                        break 'all;
                    }
                    Ok(None) => {
                        r.bad(s, "the tweak side keeps running", "a sync point".into(), "it stopped".into());
                        break 'all;
                    }
                    Err(_) => {
                        r.bad(s, "the sync point arrives", "a sync point".into(), "nothing within 20 s".into());
                        break 'all;
                    }
                }
                break;
            }
            r.count("batches");
            if n(&x["size"]) > LIMIT {
                r.count("batches made before the sync point");
            }
            let mut want: BTreeSet<usize> = rows(&x["match"]).iter().map(n).collect();
            open.extend(rows(&x["lost"]).iter().map(n));
            let mut order = vec![];
            while !want.is_empty() {
                match tokio::time::timeout(Duration::from_secs(20), live.out.recv()).await {
                    Ok(Some(TweakEvent::Matches((hash, map)))) => {
                        let b = w.blocks.iter().position(|x| x.0 == hash).map_or(0, |x| x + 1);
                        if !want.remove(&b) {
                            if open.remove(&b) {
                                continue;
                            }
                            r.bad(s, "only relevant blocks are reported, each once", format!("one of {want:?}"), format!("block {b}"));
                            break 'all;
                        }
                        order.push(b);
                        r.count("matches");
                        let expected: HashMap<[u8; 34], PublicKey> = rows(&e["map"][b - 1])
                            .iter()
                            .map(|d| (w.scripts[&d.to_string()].as_bytes().try_into().unwrap(), w.tweaks[&n(&d[1])]))
                            .collect();
                        if expected.is_empty() {
                            r.count("matches without tweaks");
                        }
                        r.eq(s, "the scripts and tweaks of a match", &expected, &map);
                    }
                    Ok(Some(TweakEvent::Synced(_))) => {
                        r.bad(s, "the sync point comes after all matches", format!("matches of {want:?}"), "the sync point".into());
                        break 'all;
                    }
                    Ok(None) => {
                        r.bad(s, "the tweak side keeps running", format!("matches of {want:?}"), "it stopped".into());
                        break 'all;
                    }
                    Err(_) => {
                        r.bad(s, "all matches arrive", format!("matches of {want:?}"), "nothing within 20 s".into());
                        break 'all;
                    }
                }
            }
            let heights: Vec<u32> = order.iter().map(|b| w.blocks[b - 1].1).collect();
            r.check(s, "blocks are reported in order of their heights", heights.windows(2).all(|p| p[0] < p[1]));
            if heights.len() > 1 {
                r.count("batches with several matches");
            }
            x = sent.next().expect("a tip was sent");
        }
    }
    drop(live.events);
    if r.violations.is_empty() {
        let end = tokio::time::timeout(Duration::from_secs(20), live.filters).await;
        r.check(s, "the filter side ends with the node", matches!(end, Ok(Ok(Err(UpdateError::NodeStopped)))));
        let end = tokio::time::timeout(Duration::from_secs(20), live.tweaks).await;
        r.check(s, "the tweak side ends with the filter side", matches!(end, Ok(Ok(()))));
        r.check(s, "nothing is sent after the last sync point", live.out.try_recv().is_err());
    }
    let strange = sv.strange.lock().unwrap().clone();
    r.eq(s, "requests", &Vec::<String>::new(), &strange);
    let birthday = n(&s["birthday"]) as u32;
    let seen: HashSet<u32> = sv.seen.lock().unwrap().iter().copied().collect();
    r.check(s, "no request for heights below the birthday", seen.iter().all(|h| *h >= birthday));
    if n(&s["id"]) < 40 {
        let c = BlindbitClient::new(url.clone()).unwrap();
        let h = c.block_height().await.map(|h| h.to_consensus_u32()).map_err(|e| format!("{e:?}"));
        r.eq(s, "height of the server", &Ok(812345), &h);
        let i = c.info().await.map(|i| (i.network, i.height.to_consensus_u32(), i.tweaks_full_basic, i.tweaks_only)).map_err(|e| format!("{e:?}"));
        r.eq(s, "information about the server", &Ok((hcore::bitcoin::Network::Signet, 812345, true, false)), &i);
        r.check(s, "an invalid address is refused", BlindbitClient::new("not an address".into()).is_err());
    }
    server.abort();
    r
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "gen" => {
            let v = generate(a[3].parse().unwrap(), a[4].parse().unwrap());
            std::fs::write(&a[5], v.iter().map(|x| format!("{x}\n")).collect::<String>()).unwrap();
        }
        "run" => {
            let seed: u64 = a[3].parse().unwrap();
            let abs = |p: &str| std::path::absolute(p).unwrap();
            let (scn, exp, out) = (abs(&a[4]), abs(&a[5]), abs(&a[6]));
            let scratch = out.with_extension("scratch");
            std::fs::create_dir_all(&scratch).unwrap();
            let p = |x: &PathBuf| x.to_str().unwrap().to_string();
            each(&p(&scn), &p(&exp), &p(&out), |s, e, r| {
                let dir = scratch.join(s["id"].to_string());
                std::fs::create_dir_all(&dir).unwrap();
                let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
                let env = Env::new(seed, s["salt"].as_str().unwrap());
                let rep = rt.block_on(run(s.clone(), e.clone(), env, dir.clone()));
                rt.shutdown_timeout(Duration::from_secs(1));
                r.absorb(rep);
                let _ = std::fs::remove_dir_all(&dir);
            });
            let _ = std::fs::remove_dir_all(&scratch);
        }
        x => panic!("unknown command {x}"),
    }
}
