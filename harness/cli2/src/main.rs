//! C23: the light client, run as a user runs it: a file it creates, a node that serves blocks, a
//! node that serves filters (the stand-in for kyoto) and a server that serves tweaks. What happened
//! is recorded as a trace, which EvalCli2.tla judges.
#![allow(dead_code)]
#[path = "../../cli/src/node.rs"]
mod node;
#[path = "../../cli/src/pay.rs"]
mod pay;
use hcore::bitcoin::bip158::BlockFilter;
use hcore::bitcoin::bip32::{DerivationPath, Xpriv, Xpub};
use hcore::bitcoin::consensus::encode::{deserialize_hex, serialize_hex};
use hcore::bitcoin::hashes::Hash;
use hcore::bitcoin::hex::DisplayHex;
use hcore::bitcoin::secp256k1::{Message, Secp256k1, SecretKey, XOnlyPublicKey};
use hcore::bitcoin::{Amount, Network, OutPoint, ScriptBuf, Transaction, TxOut, Txid};
use hcore::serde_json::{json, Value};
use hcore::universe::{fork, gen_txs, label_tweak, output_tweak, spk_of, tree, Uni, LABELS};
use hcore::{sc_add, Env, Report, Rng};
use node::Node;
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::net::{TcpListener, TcpStream};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const NETWORKS: [(Network, &str); 6] = [
    (Network::Regtest, "regtest"), (Network::Signet, "signet"), (Network::Testnet, "testnet"),
    (Network::Regtest, "regtest"), (Network::Signet, "signet"), (Network::Bitcoin, "bitcoin"),
];
const TO: [&str; 7] = ["ext", "extlab", "own", "ownlab", "ownchange", "p2tr", "p2wpkh"];
const REFUSALS: [&str; 3] = ["send", "gone", "unknown"];

// ------------------------------------------------------------------ scenarios
/// The light client runs on two networks only.
fn light(id: usize) -> bool {
    matches!(NETWORKS[id % 6].0, Network::Regtest | Network::Signet)
}
fn height(blocks: &[Value], b: usize) -> u64 {
    if b == 0 { 0 } else { blocks[b - 1]["height"].as_u64().unwrap() }
}
fn generate(what: &str, seed: u64, n: usize) -> Vec<Value> {
    (0..n)
        .map(|id| {
            let salt = format!("{what}/{id}");
            let mut rng = Rng::new(seed, &salt);
            let mc = what == "mc23";
            let nt = if mc { 4 } else { rng.range(2, 8) };
            let nb = if mc { 3 } else { rng.range(2, 8) };
            let mut txs = gen_txs(&mut rng, nt, nb);
            for t in txs.iter_mut().skip(nt) {
                t["slots"] = json!([]);
            }
            let mut blocks = tree(&mut rng, nt, nb, &txs, false);
            if mc && id % 2 == 0 {
                fork(&mut blocks, &txs, nt);
            }
            let bday = if mc { id % 3 } else { rng.range(0, 3).min(rng.range(0, 3)) };
            let mut s = json!({"id": id, "salt": salt, "txs": txs, "blocks": blocks, "bday": bday, "net": if mc { id % 2 } else { id % 6 },
                "bhash": rng.below(2)});
            if mc {
                // the keys of a run are only known when the wallet is there
                let env = Env::new(seed, &salt);
                let u = Uni::new(&env, &s, env.base("scan"), env.base("spend"));
                describe(&mut s, &u);
                let mut used: Vec<&str> = txs.iter().flat_map(|t| t["slots"].as_array().unwrap()).map(|s| s["label"].as_str().unwrap()).filter(|l| !l.is_empty() && *l != "0").collect();
                used.sort();
                used.dedup();
                used.truncate(1);
                s["labels"] = json!(used);
                s["ops"] = json!([]);
                return s;
            }
            let mut ops: Vec<Value> = vec![];
            let early = rng.chance(2, 3);
            if early {
                for m in LABELS.iter().filter(|m| **m != "0" && rng.chance(2, 3)) {
                    ops.push(json!({"op": "label", "m": m}));
                }
            }
            // some wallets use one kind of scan only
            let kind = rng.below(3);
            let scan = |rng: &mut Rng, ops: &mut Vec<Value>, at: usize, odd: bool| {
                if light(id) && (kind == 1 || kind == 2 && rng.chance(1, 2)) {
                    let mut via: Vec<usize> = vec![];
                    for _ in 0..if odd { rng.range(0, 2) } else { 0 } {
                        let b = rng.range(1, nb);
                        if height(&blocks, b) <= height(&blocks, at) && b != at {
                            via.push(b);
                        }
                    }
                    let stop = if odd && rng.chance(1, 5) { json!(rng.below(nb + 1)) } else { json!(-1) };
                    let refuse = if odd && rng.chance(1, 3) { rng.range(1, nb) } else { 0 };
                    // from a height the user names, or half names
                    let from = if odd && rng.chance(1, 3) { rng.range(0, height(&blocks, at) as usize + 1) as i64 } else { -1 };
                    let half = from >= 0 && rng.chance(1, 5);
                    ops.push(json!({"op": "cbf", "via": via, "stop": stop, "refuse": refuse, "how": *rng.pick(&REFUSALS), "from": from, "half": half}));
                } else {
                    let mut script = vec![];
                    for _ in 0..if odd { rng.range(0, 2) } else { 0 } {
                        script.push(json!([rng.range(1, nb), rng.range(1, nb)]));
                    }
                    let fail = if odd && rng.chance(1, 2) { rng.range(1, nb) } else { 0 };
                    ops.push(json!({"op": "rpc", "script": script, "fail": fail, "how": *rng.pick(&["block", "prevout", "drop"])}));
                }
                ops.push(json!({"op": "balance"}));
            };
            let mut at = 0;
            let mut left = rng.range(6, 14);
            while left > 0 {
                left -= 1;
                match rng.below(12) {
                    0 if !early || rng.chance(1, 4) => ops.push(json!({"op": "label", "m": *rng.pick(&LABELS[..3])})),
                    1 => ops.push(json!({"op": *rng.pick(&["code", "zero", "birthday", "again", "network", "nothing", "unfit", "unfit", "malformed", "malformed"]), "how": rng.below(6)})),
                    2 | 3 => {
                        ops.push(json!({"op": "balance"}));
                        ops.push(pay_op(&mut rng));
                    }
                    4 => ops.push(derive_op(&mut rng, nt)),
                    5 | 6 => {
                        at = rng.range(1, nb);
                        ops.push(json!({"op": "node", "b": at}));
                        scan(&mut rng, &mut ops, at, true);
                    }
                    _ => {
                        let b = rng.range(0, nb);
                        if b > 0 {
                            at = b;
                            ops.push(json!({"op": "node", "b": b}));
                        }
                        scan(&mut rng, &mut ops, at, false);
                    }
                }
            }
            if rng.chance(3, 4) {
                ops.push(pay_op(&mut rng));
                scan(&mut rng, &mut ops, at, false);
            }
            s["ops"] = json!(ops);
            s
        })
        .collect()
}
fn pay_op(rng: &mut Rng) -> Value {
    let to: Vec<&str> = (0..rng.range(1, 3).min(rng.range(1, 3))).map(|_| *rng.pick(&TO)).collect();
    // the same recipient twice
    let to = if rng.chance(1, 4) { vec![to[0]; to.len() + 1] } else { to };
    json!({"op": "pay", "share": *rng.pick(&[1u64, 5, 20, 35, 50, 65, 80, 95, 100, 101]), "less": *rng.pick(&[0u64, 0, 500, 1500, 4000]),
           "to": to, "rate": *rng.pick(&[1u64, 2, 5, 10, 10, 25, 50]), "data": rng.chance(1, 4), "mine": rng.chance(3, 4),
           // leaves the fee of so many inputs and little else
           "sweep": if rng.chance(1, 3) { rng.range(1, 4) } else { 0 }, "rest": rng.below(500),
           // first with a descriptor that does not fit
           "desc": if rng.chance(1, 3) { rng.range(1, 6) } else { 0 }})
}
fn derive_op(rng: &mut Rng, nt: usize) -> Value {
    let m = if rng.chance(1, 2) { "" } else { *rng.pick(&LABELS) };
    json!({"op": "derive", "t": rng.range(1, nt), "order": rng.below(4), "m": m, "hex": rng.chance(1, 2)})
}
fn describe(s: &mut Value, u: &Uni) {
    for (i, t) in s["txs"].as_array_mut().unwrap().iter_mut().enumerate() {
        t["elig"] = json!(u.tweaks[i].is_some() && t["cb"] == false);
        t["vals"] = json!(u.txs[i].output.iter().map(|o| o.value.to_sat()).collect::<Vec<_>>());
    }
    s["rank"] = json!(ranks(u));
}
fn ranks(u: &Uni) -> Vec<usize> {
    let mut ids: Vec<Txid> = u.txs.iter().map(|t| t.compute_txid()).collect();
    ids.sort();
    u.txs.iter().map(|t| ids.binary_search(&t.compute_txid()).unwrap() + 1).collect()
}

/// Histories of the specification -> scenarios.
fn scripts(universes: &[Value], histories: &[Value]) -> Vec<Value> {
    let mut out = vec![];
    for (id, h) in histories.iter().enumerate() {
        let mut s = universes[h["sel"].as_u64().unwrap() as usize - 1].clone();
        let blocks = s["blocks"].as_array().unwrap().clone();
        let mut ops: Vec<Value> = vec![];
        let mut scan: Option<(Vec<Value>, usize)> = None;
        for (i, e) in h["ops"].as_array().unwrap().iter().enumerate() {
            let b = e["b"].as_u64().unwrap_or(0) as usize;
            match (e["op"].as_str().unwrap(), &mut scan) {
                ("label", _) => ops.push(json!({"op": "label", "m": e["m"]})),
                ("node", None) => ops.push(json!({"op": "node", "b": b})),
                ("node", Some((script, k))) => script.push(json!([*k, b])),
                ("start", _) => scan = Some((vec![], 0)),
                ("block", Some((_, k))) => *k += 1,
                (x @ ("end" | "fail"), Some((script, k))) => {
                    ops.push(json!({"op": "rpc", "script": script, "fail": if x == "fail" { *k + 1 } else { 0 }, "how": if id % 2 == 0 { "block" } else { "prevout" }}));
                    ops.push(json!({"op": "balance"}));
                    scan = None;
                }
                ("filters", _) => {
                    // another branch may have been there first
                    let via: Vec<usize> = (1..=blocks.len()).filter(|v| (id + i) % 3 == 0 && *v != b && height(&blocks, *v) <= height(&blocks, b)).collect();
                    ops.push(json!({"op": "cbf", "via": via, "stop": -1, "refuse": 0, "how": "", "from": e["from"], "half": false}));
                    ops.push(json!({"op": "balance"}));
                }
                ("nofilters", _) => {
                    let p = hcore::universe::path(&blocks, b);
                    let at = p[(id + i) % p.len()];
                    let refused = (id + i) % 4 != 0;
                    ops.push(json!({"op": "cbf", "via": [], "stop": if refused { -1 } else { p.len() as i64 }, "refuse": if refused { at } else { 0 }, "how": REFUSALS[id % 3], "from": e["from"], "half": false}));
                    ops.push(json!({"op": "balance"}));
                }
                x => panic!("{x:?}"),
            }
        }
        ops.push(if id % 2 == 0 {
            json!({"op": "rpc", "script": [], "fail": 0, "how": ""})
        } else {
            json!({"op": "cbf", "via": [], "stop": -1, "refuse": 0, "how": "", "from": -1, "half": false})
        });
        ops.push(json!({"op": "balance"}));
        s["id"] = json!(id);
        s["universe"] = h["sel"].clone();
        s["ops"] = json!(ops);
        out.push(s);
    }
    out
}

// --------------------------------------------------------------------- running
struct Cli {
    dir: PathBuf,
}
enum Ended {
    Ok(String),
    Failed(String),
    Hung,
}
impl Cli {
    fn exe() -> PathBuf {
        std::env::current_exe().unwrap().parent().unwrap().join("sp-cli2")
    }
    fn node_file(&self) -> PathBuf {
        self.dir.join("node.json")
    }
    fn asked_file(&self) -> PathBuf {
        self.dir.join("asked")
    }
    fn run(&self, args: &[&str]) -> Ended {
        let out = |x: &str| self.dir.join(x);
        let file = |x: &str| Stdio::from(std::fs::File::create(out(x)).unwrap());
        let mut c = Command::new(Cli::exe())
            .args(args)
            .current_dir(&self.dir)
            .env_clear()
            .env("DB_PATH", "wallet.db")
            .env("SP_NODE", self.node_file())
            .stdin(Stdio::null())
            .stdout(file("stdout"))
            .stderr(file("stderr"))
            .spawn()
            .expect("starting the wallet");
        let t0 = Instant::now();
        let mut wait = 1;
        let status = loop {
            match c.try_wait().unwrap() {
                Some(s) => break s,
                None if t0.elapsed() > Duration::from_secs(60) => {
                    let _ = c.kill();
                    let _ = c.wait();
                    return Ended::Hung;
                }
                None => std::thread::sleep(Duration::from_millis(wait)),
            }
            wait = (wait + 1).min(10);
        };
        let read = |x: &str| String::from_utf8_lossy(&std::fs::read(out(x)).unwrap()).into_owned();
        if status.success() {
            Ended::Ok(read("stdout"))
        } else {
            Ended::Failed(read("stderr"))
        }
    }
    /// Every JSON object printed.
    fn json(out: &str) -> Vec<Value> {
        hcore::serde_json::Deserializer::from_str(out).into_iter::<Value>().map_while(Result::ok).collect()
    }
}
fn first(res: &Result<String, String>) -> Value {
    res.as_ref().ok().and_then(|x| Cli::json(x).into_iter().next()).unwrap_or_default()
}

pub struct Keys {
    network: Network,
    name: &'static str,
    desc: String,
    scan: SecretKey,
    spend: SecretKey,
}
pub struct World {
    s: Value,
    env: Env,
    u: Uni,
    k: Keys,
    node: Arc<Node>,
    tweaks: Arc<Tweaks>,
    events: Vec<Value>,
    labels: Vec<String>,
}

/// Serves the tweaks of the blocks, each after some time.
struct Tweaks {
    port: u16,
    answers: Mutex<HashMap<u32, (String, u64)>>,
    strange: Mutex<Vec<String>>,
    stop: Mutex<bool>,
}
impl Tweaks {
    fn start() -> Arc<Tweaks> {
        let listener = TcpListener::bind("127.0.0.1:0").unwrap();
        let t = Arc::new(Tweaks {
            port: listener.local_addr().unwrap().port(),
            answers: Mutex::default(),
            strange: Mutex::default(),
            stop: Mutex::new(false),
        });
        let t2 = t.clone();
        std::thread::spawn(move || {
            for c in listener.incoming() {
                if *t2.stop.lock().unwrap() {
                    return;
                }
                let t = t2.clone();
                if let Ok(c) = c {
                    std::thread::spawn(move || t.connection(c));
                }
            }
        });
        t
    }
    fn stop(&self) {
        *self.stop.lock().unwrap() = true;
        let _ = TcpStream::connect(("127.0.0.1", self.port));
    }
    fn connection(&self, c: TcpStream) {
        let _ = c.set_nodelay(true);
        let mut out = c.try_clone().unwrap();
        let mut r = BufReader::new(c);
        loop {
            let mut request = String::new();
            let mut line = String::new();
            loop {
                line.clear();
                match r.read_line(&mut line) {
                    Ok(0) | Err(_) => return,
                    Ok(_) => {}
                }
                if line.trim().is_empty() {
                    break;
                }
                if request.is_empty() {
                    request = line.trim().into();
                }
            }
            let path = request.split(' ').nth(1).unwrap_or("").split('?').next().unwrap().to_string();
            let h = path.strip_prefix("/tweaks/").and_then(|h| h.parse::<u32>().ok());
            let a = h.and_then(|h| self.answers.lock().unwrap().get(&h).cloned());
            let (status, body) = match a {
                Some((body, delay)) => {
                    std::thread::sleep(Duration::from_millis(delay));
                    ("200 OK", body)
                }
                None => {
                    self.strange.lock().unwrap().push(request);
                    ("404 Not Found", "{}".into())
                }
            };
            let http = format!("HTTP/1.1 {status}\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n{body}", body.len());
            if out.write_all(http.as_bytes()).is_err() {
                return;
            }
        }
    }
}

fn code(w: &World, label: Option<u32>) -> String {
    let spend = sc_add(Some(w.k.spend), label.map(|m| label_tweak(&w.k.scan, m))).unwrap();
    pay::code(w.env.point(&w.k.scan), w.env.point(&spend), w.k.network)
}

fn run(seed: u64, s: &Value, r: &mut Report) -> Value {
    let salt = s["salt"].as_str().unwrap();
    let env = Env::new(seed, salt);
    let dir = std::env::temp_dir().join(format!("hcli2-{}-{}", std::process::id(), s["id"]));
    std::fs::create_dir_all(&dir).unwrap();
    let cli = Cli { dir: dir.clone() };
    r.checked += 1;
    let t = match begin(&cli, env, s, r) {
        None => json!({"id": s["id"], "txs": [], "blocks": [], "rank": [], "bday": 0, "events": [], "case": s}),
        Some(mut w) => {
            steps(&cli, &mut w, r);
            w.node.stop();
            w.tweaks.stop();
            let strange = w.tweaks.strange.lock().unwrap().clone();
            if !strange.is_empty() {
                r.bad(s, "tweaks are asked for the blocks of the chain", "their heights".into(), format!("{strange:?}"));
            }
            let rank = ranks(&w.u);
            json!({"id": s["id"], "txs": w.s["txs"], "blocks": w.s["blocks"], "rank": rank, "bday": s["bday"], "events": w.events, "case": s})
        }
    };
    std::fs::remove_dir_all(&dir).unwrap();
    t
}

fn at(w: &World, b: usize) -> u64 {
    height(w.s["blocks"].as_array().unwrap(), b)
}
fn create_args(s: &Value, env: &Env, name: &str, network: Network) -> Vec<String> {
    let hash = match s["bhash"].as_u64().unwrap() {
        0 => hcore::bitcoin::constants::genesis_block(network).block_hash(),
        _ => hcore::bitcoin::BlockHash::from_byte_array(env.blob("birthday", 32).try_into().unwrap()),
    };
    let mut v: Vec<String> = ["create", "--birthday-height", &s["bday"].to_string(), "--birthday-hash", &hash.to_string()].map(String::from).into();
    // the network a wallet is made for when none is named
    if name != "signet" {
        v.extend(["--network".to_string(), name.to_string()]);
    }
    v
}
fn birthday(args: &[String]) -> Value {
    json!({"height": args[2].parse::<u64>().unwrap(), "hash": args[4]})
}

fn begin(cli: &Cli, env: Env, s: &Value, r: &mut Report) -> Option<World> {
    let (network, name) = NETWORKS[s["net"].as_u64().unwrap() as usize];
    let args = create_args(s, &env, name, network);
    let res = match cli.run(&args.iter().map(|x| x.as_str()).collect::<Vec<_>>()) {
        Ended::Ok(o) => Ok(o),
        Ended::Failed(e) => Err(e),
        Ended::Hung => Err("60 s".into()),
    };
    let desc = first(&res)["tr_xprv"].as_str().unwrap_or("").to_string();
    let secp = Secp256k1::new();
    // tr([fingerprint]key)
    let parsed = desc.strip_prefix("tr([").and_then(|x| x.strip_suffix(")")).and_then(|x| x.split_once(']'));
    let x = parsed.and_then(|(fp, x)| Xpriv::from_str(x).ok().filter(|x| x.fingerprint(&secp).to_string() == fp));
    let Some(x) = x else {
        r.bad(s, "a wallet is created and shows its key", "a descriptor".into(), format!("{res:?}"));
        return None;
    };
    let coin = if network == Network::Bitcoin { 0 } else { 1 };
    let get = |p: &str| x.derive_priv(&secp, &DerivationPath::from_str(&format!("m/352h/{coin}h/0h/{p}")).unwrap()).unwrap().private_key;
    let k = Keys { network, name, desc, scan: get("1h/0"), spend: get("0h/0") };
    let mut s = s.clone();
    let u = Uni::new(&env, &s, k.scan, k.spend);
    describe(&mut s, &u);
    let node = Node::start(&env, &u, &s, network);
    Some(World { s, env, u, k, node, tweaks: Tweaks::start(), events: vec![], labels: vec!["0".into()] })
}

/// Descriptors that are not of the wallet's key.
fn unfit(w: &World, step: usize, kind: u64) -> String {
    let secp = Secp256k1::new();
    let x = w.k.desc.split_once(']').unwrap().1.trim_end_matches(')').to_string();
    let own = Xpriv::from_str(&x).unwrap();
    let other = Xpriv::new_master(w.k.network, &w.env.blob(&format!("other wallet {step}"), 32)).unwrap();
    match kind {
        1 => format!("tr({other})"),
        2 => format!("tr({})", hcore::bitcoin::PrivateKey::new(w.k.spend, w.k.network)),
        3 => format!("tr({})", Xpub::from_priv(&secp, &own)),
        4 => format!("tr({x}/<0;1>/*)"),
        5 => w.k.desc[..w.k.desc.len() - 2].to_string(),
        _ => "".to_string(),
    }
}

fn steps(cli: &Cli, w: &mut World, r: &mut Report) {
    macro_rules! go {
        ($args:expr) => {
            match cli.run($args) {
                Ended::Hung => {
                    return r.bad(&w.s, "the wallet ends", "an answer".into(), format!("{:?} runs for 60 s", $args));
                }
                Ended::Ok(o) => Ok(o),
                // tasks whose receiver is gone may panic once the program has failed
                Ended::Failed(e) if e.contains("panicked at") && !e.lines().any(|l| l.starts_with("Error: ")) => {
                    return r.bad(&w.s, "the wallet answers or refuses with an error", "no panic".into(), format!("{:?}: {e}", $args));
                }
                Ended::Failed(e) => Err(e),
            }
        };
    }
    let url = w.node.url();
    let turl = format!("http://127.0.0.1:{}", w.tweaks.port);
    for (step, o) in w.s["ops"].as_array().unwrap().clone().into_iter().enumerate() {
        let op = o["op"].as_str().unwrap();
        r.count(&format!("step {op}"));
        match op {
            "label" => {
                let m = o["m"].as_str().unwrap();
                let want = code(w, Some(m.parse().unwrap()));
                let res = go!(&["code", "--label", m]);
                let ok = first(&res)["silent_payment_code"] == json!(want);
                w.labels.push(m.into());
                w.events.push(json!({"ev": "label", "m": m, "ok": ok, "got": format!("{res:?}")}));
            }
            "code" => {
                let res = go!(&["code"]);
                let ok = first(&res)["silent_payment_code"] == json!(code(w, None));
                w.events.push(json!({"ev": "code", "ok": ok, "got": format!("{res:?}")}));
            }
            "zero" => {
                // the change code is not for others
                let res = go!(&["code", "--label", "0"]);
                let ok = match &res {
                    Err(_) => true,
                    Ok(_) => first(&res)["silent_payment_code"].is_null(),
                };
                w.events.push(json!({"ev": "code", "ok": ok, "got": format!("label 0: {res:?}")}));
            }
            "birthday" => {
                let res = go!(&["birthday"]);
                let ok = first(&res) == birthday(&create_args(&w.s, &w.env, w.k.name, w.k.network));
                w.events.push(json!({"ev": "code", "ok": ok, "got": format!("birthday: {res:?}")}));
            }
            "again" => {
                // a file that exists is not replaced
                let args = create_args(&w.s, &w.env, w.k.name, w.k.network);
                let res = go!(&args.iter().map(|x| x.as_str()).collect::<Vec<_>>());
                w.events.push(json!({"ev": "code", "ok": res.is_err(), "got": format!("create again: {res:?}")}));
            }
            "network" => {
                // an address of another network is refused
                let other = if w.k.network == Network::Bitcoin { Network::Regtest } else { Network::Bitcoin };
                let p = format!("{}:1000", pay::address(&w.env, other, step % 2 == 0));
                let c = format!("{}:1000", pay::code(w.env.point(&w.k.scan), w.env.point(&w.k.spend), other));
                let desc = w.k.desc.clone();
                let res = if step % 3 == 0 { go!(&["new-tx", "--to", &p, "--", &desc]) } else { go!(&["new-tx", "--to-sp", &c, "--", &desc]) };
                w.events.push(json!({"ev": "code", "ok": res.is_err(), "got": format!("another network: {res:?}")}));
            }
            "unfit" => {
                // a transaction the node does not know, half of the credentials, networks without a known peer
                let id = w.env.blob("unknown tx", 32).to_lower_hex_string();
                let desc = w.k.desc.clone();
                let to = if step % 2 == 0 { pay::address(&w.env, w.k.network, true) } else { code(w, None) };
                let flag = if step % 2 == 0 { "--to" } else { "--to-sp" };
                let many = format!("{to}:{}", ["18446744073709551615", "2100000000000001", "18446744073709551616"][step / 4 % 3]);
                let few = format!("{to}:1000");
                let res = match o["how"].as_u64().unwrap() {
                    3 => go!(&["new-tx", flag, &many, "--", &desc]),
                    4 => go!(&["new-tx", flag, &few, flag, &many, "--", &desc]),
                    5 => go!(&["new-tx", flag, &few, "--fee-rate", ["18446744073709551615", "73786976294838207", "4000000000000"][step / 4 % 3], "--", &desc]),
                    0 => go!(&["derive-sp-for-tx", "--url", &url, "--txid", &id, "0"]),
                    1 => go!(&["scan-rpc", "--url", &url, if step % 2 == 0 { "--rpc-user" } else { "--rpc-password" }, "x"]),
                    _ if matches!(w.k.network, Network::Regtest | Network::Signet) => continue,
                    _ => go!(&["scan-cbf", &turl]),
                };
                w.events.push(json!({"ev": "code", "ok": res.is_err(), "got": format!("unfit: {res:?}")}));
            }
            "nothing" => {
                let desc = w.k.desc.clone();
                let res = go!(&["new-tx", "--", &desc]);
                w.events.push(json!({"ev": "code", "ok": res.is_err(), "got": format!("no recipient: {res:?}")}));
            }
            "malformed" => {
                // what names no recipient or no amount is refused
                let name = if step % 2 == 0 { pay::address(&w.env, w.k.network, true) } else { code(w, None) };
                let x = match step / 2 % 6 {
                    0 => format!("{name}:1000:5"),
                    1 => name.clone(),
                    2 => format!("{name}:"),
                    3 => format!("{name}:-1000"),
                    4 => format!("{}:1000", &name[..name.len() - 1]),
                    _ => ":1000".to_string(),
                };
                let desc = w.k.desc.clone();
                let res = go!(&["new-tx", if step % 2 == 0 { "--to" } else { "--to-sp" }, &x, "--", &desc]);
                w.events.push(json!({"ev": "code", "ok": res.is_err(), "got": format!("{x}: {res:?}")}));
            }
            "derive" => {
                let t = o["t"].as_u64().unwrap() as usize - 1;
                let order = o["order"].as_u64().unwrap() as u32;
                let m = o["m"].as_str().unwrap();
                let tx = &w.u.txs[t];
                let (id, hex, ord) = (tx.compute_txid().to_string(), serialize_hex(tx), order.to_string());
                let mut args = vec!["derive-sp-for-tx", "--url", &url, &ord];
                args.extend(if o["hex"] == true { ["--tx-hex", &hex] } else { ["--txid", &id] });
                if !m.is_empty() {
                    args.extend(["--label", m]);
                }
                let res = go!(&args);
                let shown = first(&res);
                let ok = match w.u.tweaks[t] {
                    Some(tw) if m.is_empty() || w.labels.iter().any(|l| l == m) => {
                        let shared = tw.mul_tweak(&w.env.secp, &w.k.scan.into()).unwrap();
                        let label = (!m.is_empty()).then(|| label_tweak(&w.k.scan, m.parse().unwrap()));
                        let sk = sc_add(sc_add(Some(w.k.spend), Some(output_tweak(&shared, order))), label).unwrap();
                        r.count("scripts derived");
                        shown["script_pubkey_hex"] == json!(spk_of(&w.env, &sk).to_hex_string())
                            && shown["partial_secret"] == json!(tw.to_string())
                            && shown["ecdh_shared_secret"] == json!(shared.to_string())
                            && shown["txid"] == json!(id)
                    }
                    // no usable input, or no such label
                    _ => res.is_err(),
                };
                w.events.push(json!({"ev": "code", "ok": ok, "got": format!("derived: {res:?}")}));
            }
            "node" => {
                let b = o["b"].as_u64().unwrap() as usize;
                w.node.go(b);
                w.events.push(json!({"ev": "node", "b": b}));
            }
            "rpc" => {
                let fail = o["fail"].as_u64().unwrap() as usize;
                let moves = o["script"].as_array().unwrap().clone();
                w.node.script(&moves, fail, o["how"].as_str().unwrap());
                let res = go!(&["scan-rpc", "--url", &url]);
                let (log, hit) = w.node.take_log();
                w.events.push(json!({"ev": "start"}));
                r.counts.entry("blocks scanned".into()).and_modify(|x| *x += log.len() as u64).or_insert(log.len() as u64);
                if log.iter().any(|e| e["ev"] == "node") {
                    r.count("scans during which the node moved");
                }
                w.events.extend(log);
                let mut e = json!({"ev": "end", "ok": res.is_ok(), "injected": hit, "shown": false, "tip": 0, "total": 0, "got": format!("{res:?}")});
                if hit {
                    r.count("scans with a failing node");
                }
                if let Ok(out) = &res {
                    if let Some((tip, total)) = shown(w, out) {
                        e["shown"] = json!(true);
                        e["tip"] = json!(tip);
                        e["total"] = json!(total);
                        r.count("scans that show what they reached");
                    }
                }
                w.events.push(e);
            }
            "cbf" => {
                if at(w, w.node.tip()) < w.s["bday"].as_u64().unwrap() {
                    r.count("light scans too early");
                    continue;
                }
                let bad = light_node(cli, w, &o, step);
                let mut args = vec!["scan-cbf".to_string(), turl.clone()];
                let (mut from, half) = (o["from"].as_i64().unwrap(), o["half"] == true);
                if from >= 0 {
                    // the hash is only looked at by the user
                    let b = hcore::universe::path(w.s["blocks"].as_array().unwrap(), w.node.tip()).into_iter().find(|b| at(w, *b) as i64 == from).unwrap_or(0);
                    if !half || step % 2 == 0 {
                        args.extend(["--height".to_string(), from.to_string()]);
                    }
                    if !half || step % 2 == 1 {
                        args.extend(["--hash".to_string(), w.node.hash(b).to_string()]);
                    }
                    if half {
                        from = -1;
                    } else {
                        r.count("light scans from a chosen height");
                    }
                }
                let res = go!(&args.iter().map(|x| x.as_str()).collect::<Vec<_>>());
                let asked = std::fs::read_to_string(cli.asked_file()).unwrap_or_default();
                let asked: Vec<usize> = asked.lines().filter_map(|h| w.node.number(h)).collect();
                let refused = o["refuse"].as_u64().unwrap() as usize;
                let injected = bad || refused > 0 && asked.contains(&refused);
                r.count(if injected { "light scans that fail" } else { "light scans" });
                r.counts.entry("blocks the light client fetched".into()).and_modify(|x| *x += asked.len() as u64).or_insert(asked.len() as u64);
                if o["via"].as_array().is_some_and(|x| !x.is_empty()) {
                    r.count("light scans that saw another branch");
                }
                let tip = w.node.tip();
                w.events.push(json!({"ev": "filters", "ok": res.is_ok(), "injected": injected, "want": tip, "from": from,
                    "tip": if res.is_ok() && !bad { tip as i64 } else { -1 }, "got": res.err().unwrap_or_default()}));
            }
            "balance" => {
                let res = go!(&["balance"]);
                w.events.push(balance(&res));
            }
            "pay" => {
                let res = go!(&["balance"]);
                let b = balance(&res);
                w.events.push(b.clone());
                if b["ok"] != true {
                    return;
                }
                let total = b["shows"]["total"].as_u64().unwrap() + b["shows"]["pending"].as_u64().unwrap();
                let to: Vec<&str> = o["to"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
                // addresses come first
                let to: Vec<&str> = to.iter().filter(|x| x.starts_with("p2")).chain(to.iter().filter(|x| !x.starts_with("p2"))).copied().collect();
                let rate = o["rate"].as_u64().unwrap();
                let n = to.len() as u64;
                let value = match o["sweep"].as_u64().unwrap() {
                    0 => (total * o["share"].as_u64().unwrap() / 100).saturating_sub(o["less"].as_u64().unwrap()) / n,
                    k => total.saturating_sub(rate * (12 + 58 * k + 43 * n + if o["data"] == true { 20 } else { 0 }) + o["rest"].as_u64().unwrap()) / n,
                };
                let asked: Vec<(Recipient, u64)> = to.iter().enumerate().map(|(i, x)| (recipient(w, x), value.max(1000) + i as u64)).collect();
                let mut args: Vec<String> = vec!["new-tx".into()];
                for (x, v) in &asked {
                    args.push(if x.address { "--to" } else { "--to-sp" }.into());
                    args.push(format!("{}:{v}", x.name));
                }
                args.extend(["--fee-rate".into(), rate.to_string()]);
                let data = format!("data {step}");
                if o["data"] == true {
                    args.extend(["--data".into(), data.clone()]);
                }
                args.push("--".into());
                // only the key of the wallet pays, whatever is spent
                let kind = o["desc"].as_u64().unwrap_or(0);
                if kind > 0 {
                    let mut bad = args.clone();
                    bad.push(unfit(w, step, kind));
                    let res = go!(&bad.iter().map(|x| x.as_str()).collect::<Vec<_>>());
                    r.count(&format!("payments with unfit keys {kind}"));
                    w.events.push(json!({"ev": "code", "ok": kind == 4 || res.is_err(), "got": format!("{bad:?}: {res:?}")}));
                }
                args.push(w.k.desc.clone());
                let res = go!(&args.iter().map(|x| x.as_str()).collect::<Vec<_>>());
                let pays: Vec<u64> = asked.iter().map(|x| x.1).collect();
                let tx = match first(&res)["tx"].as_str().and_then(|x| deserialize_hex::<Transaction>(x).ok()) {
                    None => {
                        r.count("payments refused");
                        w.events.push(json!({"ev": "pay", "ok": false, "pays": pays, "rate": rate, "data": o["data"], "ins": [], "outs": [], "got": format!("{res:?}")}));
                        continue;
                    }
                    Some(t) => t,
                };
                match judge(w, &asked, (o["data"] == true).then_some(data), rate, &tx) {
                    Err(x) => return r.bad(&w.s, "a payment spends outputs of the wallet", "known outputs".into(), x),
                    Ok(e) => {
                        r.count("payments");
                        for x in &to {
                            r.count(&format!("payments to {x}"));
                        }
                        if asked.len() > 1 {
                            r.count("payments to several recipients");
                        }
                        if tx.input.len() > 1 {
                            r.count("payments with several inputs");
                        }
                        if !e["outs"].as_array().unwrap().iter().any(|x| x["who"] == -1) {
                            r.count("payments without change");
                            if to.contains(&"ownchange") {
                                r.count("payments to the change code without change");
                            }
                        }
                        if e["outs"].as_array().unwrap().iter().any(|x| x["who"] == -1) {
                            r.count("payments with change");
                        }
                        w.events.push(e);
                        if o["mine"] == true {
                            if let Some(b) = pay::mine(w, tx) {
                                r.count("payments mined");
                                w.node.go(b);
                                w.events.push(json!({"ev": "node", "b": b}));
                            }
                        }
                    }
                }
            }
            x => panic!("unknown op {x}"),
        }
    }
}

/// Writes down what the light client's node does; true if it stops before the end.
fn light_node(cli: &Cli, w: &World, o: &Value, step: usize) -> bool {
    let blocks = w.s["blocks"].as_array().unwrap();
    let path = |b: usize| hcore::universe::path(blocks, b);
    let mut spks: HashMap<OutPoint, ScriptBuf> = HashMap::new();
    for (t, prev) in w.u.txs.iter().zip(&w.u.prevouts) {
        for (i, p) in t.input.iter().zip(prev) {
            spks.insert(i.previous_output, p.script_pubkey.clone());
        }
    }
    let hash = |b: usize| w.node.hash(b).to_string();
    let filter = |b: usize| {
        let f = BlockFilter::new_script_filter(&w.node.block(b), |op| {
            spks.get(op).cloned().ok_or(hcore::bitcoin::bip158::Error::UtxoMissing(*op))
        });
        json!({"filter": [height(blocks, b), hash(b), f.unwrap().content.to_lower_hex_string()]})
    };
    let tip = w.node.tip();
    let mut events = vec![];
    let mut on: Vec<usize> = vec![];
    let mut best = 0;
    for b in o["via"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).chain([tip]) {
        // a node moves to a branch that is not shorter
        if height(blocks, b) < best {
            continue;
        }
        best = height(blocks, b);
        let p = path(b);
        events.extend(p.iter().filter(|x| !on.contains(x)).map(|x| filter(*x)));
        on = p;
    }
    let stop = o["stop"].as_i64().unwrap();
    if stop >= 0 {
        events.truncate(stop as usize);
        events.push(json!({"stop": true}));
    } else {
        events.push(json!({"tip": [height(blocks, tip), hash(tip), []]}));
    }
    let mut known = BTreeMap::new();
    for b in 1..=blocks.len() {
        let refused = o["refuse"].as_u64().unwrap() as usize == b;
        let v = if refused { json!({"refuse": o["how"]}) } else { json!({"height": height(blocks, b), "hex": serialize_hex(&w.node.block(b))}) };
        known.insert(hash(b), v);
    }
    let chain: Vec<String> = std::iter::once(0).chain(path(tip)).map(hash).collect();
    let _ = std::fs::remove_file(cli.asked_file());
    let script = json!({"network": w.k.name, "chain": chain, "events": events, "blocks": known, "asked": cli.asked_file().to_str().unwrap()});
    std::fs::write(cli.node_file(), script.to_string()).unwrap();
    let mut answers = w.tweaks.answers.lock().unwrap();
    answers.clear();
    for b in path(tip) {
        let tweaks: Vec<String> = blocks[b - 1]["txs"]
            .as_array()
            .unwrap()
            .iter()
            .map(|t| t.as_u64().unwrap() as usize - 1)
            .filter(|t| w.s["txs"][t]["cb"] == false && w.u.txs[*t].output.iter().any(|o| o.script_pubkey.is_p2tr()))
            .filter_map(|t| w.u.tweaks[t].map(|x| x.to_string()))
            .collect();
        let delay = w.env.blob(&format!("delay/{step}/{b}"), 1)[0] as u64 % 8;
        answers.insert(height(blocks, b) as u32, (json!(tweaks).to_string(), delay));
    }
    stop >= 0
}

// -------------------------------------------------------------------- payments
struct Recipient {
    name: String,
    address: bool,
    own: bool,
    label: Option<u32>,
    script: Option<ScriptBuf>,
}
fn recipient(w: &World, to: &str) -> Recipient {
    let x = pay::recipient(w, to);
    let label = match to {
        "extlab" => Some(5),
        "ownlab" => Some(1),
        "ownchange" => Some(0),
        _ => None,
    };
    let script = to.starts_with("p2").then(|| {
        hcore::bitcoin::Address::from_str(x.address.as_ref().unwrap()).unwrap().assume_checked().script_pubkey()
    });
    Recipient { address: x.code.is_none(), name: x.code.or(x.address).unwrap(), own: to.starts_with("own"), label, script }
}

/// The event that describes a payment.
fn judge(w: &World, asked: &[(Recipient, u64)], data: Option<String>, rate: u64, t: &Transaction) -> Result<Value, String> {
    let ins: Vec<Value> = t
        .input
        .iter()
        .map(|i| {
            let op = i.previous_output;
            pay::place(w, &op).map(|(t, _)| json!([t, op.vout])).ok_or(format!("{op} is not the wallet's"))
        })
        .collect::<Result<_, _>>()?;
    let tweak = pay::own_tweak(w, t).ok_or("no key")?;
    let all: Vec<u32> = LABELS.iter().map(|l| l.parse().unwrap()).collect();
    let own = pay::found(&w.env, t, &tweak, &w.k.scan, &w.k.spend, &all);
    let ext = pay::found(&w.env, t, &tweak, &w.env.base("rscan"), &w.env.base("rspend"), &[5]);
    let mut who = vec![0i64; t.output.len()];
    for (r, (x, v)) in asked.iter().enumerate() {
        let hit = (0..t.output.len()).find(|i| {
            let o = &t.output[*i];
            who[*i] == 0
                && o.value.to_sat() == *v
                && match &x.script {
                    Some(s) => o.script_pubkey == *s,
                    None => (if x.own { &own } else { &ext }).iter().any(|f| f.0 == *i && f.2 == x.label),
                }
        });
        if let Some(i) = hit {
            who[i] = r as i64 + 1;
        }
    }
    for (i, _, l) in &own {
        if who[*i] == 0 && *l == Some(0) {
            who[*i] = -1;
        }
    }
    if let Some(d) = &data {
        let script = ScriptBuf::from_bytes([&[0x6a, d.len() as u8], d.as_bytes()].concat());
        for (i, o) in t.output.iter().enumerate() {
            if o.script_pubkey == script && o.value == Amount::ZERO {
                who[i] = -2;
            }
        }
    }
    // signatures, against the outputs that are on chain
    let secp = Secp256k1::new();
    let prevouts: Vec<TxOut> = t.input.iter().map(|i| pay::prevout(w, &i.previous_output)).collect();
    use bitcoin::sighash::{Prevouts, SighashCache, TapSighashType};
    let mut signed = vec![];
    for i in 0..t.input.len() {
        let wit = &t.input[i].witness;
        let s = wit.nth(0).and_then(|x| bitcoin::taproot::Signature::from_slice(x).ok());
        let good = wit.len() == 1
            && t.input[i].script_sig.is_empty()
            && s.is_some_and(|s| {
                let hash = SighashCache::new(t).taproot_key_spend_signature_hash(i, &Prevouts::All(&prevouts), s.sighash_type);
                let key = XOnlyPublicKey::from_slice(&prevouts[i].script_pubkey.as_bytes()[2..]);
                match (hash, key) {
                    (Ok(h), Ok(k)) => {
                        matches!(s.sighash_type, TapSighashType::Default | TapSighashType::All)
                            && secp.verify_schnorr(&s.signature, &Message::from_digest(h.to_byte_array()), &k).is_ok()
                    }
                    _ => false,
                }
            });
        signed.push(good);
    }
    let lock = if t.lock_time.is_block_height() { t.lock_time.to_consensus_u32() } else { 2_000_000_000 };
    let outs: Vec<Value> = t.output.iter().zip(&who).map(|(o, p)| json!({"value": o.value.to_sat(), "who": p})).collect();
    let pays: Vec<u64> = asked.iter().map(|x| x.1).collect();
    Ok(json!({"ev": "pay", "ok": true, "pays": pays, "rate": rate, "data": data.is_some(), "ins": ins, "outs": outs,
        "size": t.vsize(), "signed": signed, "lock": lock}))
}

/// What a scan says it reached: the block and the total.
fn shown(w: &World, out: &str) -> Option<(usize, u64)> {
    let line = out.lines().rev().find(|l| l.contains("synced to "))?;
    let rest = line.split("synced to ").nth(1)?;
    let hash = rest.split_whitespace().next()?;
    let total = rest.split("total: ").nth(1)?.trim();
    let total = Amount::from_str(total).ok()?.to_sat();
    Some((w.node.number(hash)?, total))
}

fn balance(res: &Result<String, String>) -> Value {
    let v = res.as_ref().map(|x| Cli::json(x)).unwrap_or_default();
    let get = |a: &str, b: &str| v.iter().find_map(|x| x.get(a).and_then(|x| x[b].as_u64()));
    let all = [("total", "confirmed", "total"), ("spendable", "confirmed", "spendable"), ("immature", "confirmed", "immature"),
        ("pending", "unconfirmed", "total"), ("trusted", "unconfirmed", "trusted"), ("untrusted", "unconfirmed", "untrusted")];
    let mut shows = json!({});
    for (name, a, b) in all {
        match get(a, b) {
            Some(x) => shows[name] = json!(x),
            None => return json!({"ev": "balance", "ok": false, "shows": {}, "got": format!("{res:?}")}),
        }
    }
    json!({"ev": "balance", "ok": true, "shows": shows})
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let write = |p: &str, v: &[Value]| std::fs::write(p, v.iter().map(|x| format!("{x}\n")).collect::<String>()).unwrap();
    match a[1].as_str() {
        "gen" => write(&a[5], &generate(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap())),
        "script" => write(&a[4], &scripts(&hcore::read_lines(&a[2]), &hcore::read_lines(&a[3]))),
        // run SEED SCENARIOS TRACES REPORT
        "run" => {
            let seed: u64 = a[2].parse().unwrap();
            let traces = Mutex::new(vec![]);
            let none = format!("{}.none", a[4]);
            let scns = hcore::read_lines(&a[3]);
            write(&none, &scns.iter().map(|s| json!({"id": s["id"]})).collect::<Vec<_>>());
            hcore::each(&a[3], &none, &a[5], |s, _, r| {
                r.checked -= 1;
                let t = run(seed, s, r);
                traces.lock().unwrap().push(t);
            });
            std::fs::remove_file(none).unwrap();
            let mut t = traces.into_inner().unwrap();
            t.sort_by_key(|x| x["id"].as_u64());
            write(&a[4], &t);
        }
        // judge TRACES VERDICTS REPORT
        "judge" => {
            let mut r = Report::default();
            let verdicts = hcore::read_lines(&a[3]);
            let by: HashMap<u64, &Value> = verdicts.iter().map(|v| (v["id"].as_u64().unwrap(), v)).collect();
            for t in hcore::read_lines(&a[2]) {
                r.checked += 1;
                let v = by[&t["id"].as_u64().unwrap()];
                r.counts.entry("events".into()).and_modify(|x| *x += t["events"].as_array().unwrap().len() as u64).or_insert(0);
                match v["bad"].as_u64().unwrap() {
                    0 => {
                        r.comparisons += t["events"].as_array().unwrap().len() as u64;
                        if v["odd"] == true {
                            r.bad(&t, "a light scan after blocks were replaced starts below them", "the balance of the best chain".into(), "another balance".into());
                        }
                    }
                    i => {
                        let e = &t["events"][i as usize - 1];
                        let what = match e["ev"].as_str().unwrap() {
                            "label" => "a labelled code is the one the keys prescribe",
                            "code" => "what is shown is what the keys prescribe, and what cannot be done is refused",
                            "end" => "a scan reads every block up to the tip of the node and shows what it found",
                            "filters" => "a light scan ends at the tip of the node, and fails when it cannot",
                            "balance" => "the balance is that of the best chain",
                            "pay" => "a payment spends the wallet's outputs, pays everyone and the change, and is signed",
                            x => x,
                        };
                        let x = format!("event {i}, allowed from {}", v["states"]);
                        r.bad(&t, what, x, e.to_string());
                    }
                }
                if r.samples.len() < 2 {
                    r.samples.push(json!({"events": t["events"]}));
                }
            }
            r.finish(&a[4]);
        }
        x => panic!("unknown command {x}"),
    }
}
