//! C21: the command line wallet, run as a user runs it against a node that serves the blocks of a
//! scenario. What happened is recorded as a trace, which EvalCli.tla judges.
mod node;
mod pay;
mod replace;
use hcore::bitcoin::bip32::{DerivationPath, Xpriv};
use hcore::bitcoin::secp256k1::{Secp256k1, SecretKey};
use hcore::bitcoin::{Network, Txid};
use hcore::serde_json::{json, Value};
use hcore::universe::{fork, gen_txs, label_tweak, tree, Uni, LABELS};
use hcore::{sc_add, Env, Report, Rng};
use node::Node;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::str::FromStr;
use std::time::{Duration, Instant};

const NETWORKS: [(Network, &str); 4] =
    [(Network::Regtest, "regtest"), (Network::Testnet, "testnet"), (Network::Signet, "signet"), (Network::Bitcoin, "bitcoin")];
const ALGOS: [&str; 5] = ["largest-first", "smallest-first", "oldest-first", "newest-first", "bnb"];
const TO: [&str; 7] = ["ext", "extlab", "own", "ownlab", "ownchange", "p2tr", "p2wpkh"];

// ------------------------------------------------------------------ scenarios
fn generate(what: &str, seed: u64, n: usize) -> Vec<Value> {
    (0..n)
        .map(|id| {
            let salt = format!("{what}/{id}");
            let mut rng = Rng::new(seed, &salt);
            let mc = what == "mc21";
            let nt = if mc { 4 } else { rng.range(2, 8) };
            let nb = if mc { 3 } else { rng.range(2, 7) };
            let mut txs = gen_txs(&mut rng, nt, nb);
            for t in txs.iter_mut().skip(nt) {
                t["slots"] = json!([]);
            }
            let mut blocks = tree(&mut rng, nt, nb, &txs, false);
            if mc {
                // a fork whose branches share transactions
                if id % 2 == 0 {
                    fork(&mut blocks, &txs, nt);
                }
            }
            let mut s = json!({"id": id, "salt": salt, "txs": txs, "blocks": blocks});
            let env = Env::new(seed, &salt);
            let k = Keys::new(&env, id);
            let u = Uni::new(&env, &s, k.scan, k.spend);
            for (i, t) in s["txs"].as_array_mut().unwrap().iter_mut().enumerate() {
                t["elig"] = json!(u.tweaks[i].is_some() && t["cb"] == false);
                t["vals"] = json!(u.txs[i].output.iter().map(|o| o.value.to_sat()).collect::<Vec<_>>());
            }
            s["rank"] = json!(ranks(&u));
            if mc {
                let mut used: Vec<&str> = txs.iter().flat_map(|t| t["slots"].as_array().unwrap()).map(|s| s["label"].as_str().unwrap()).filter(|l| !l.is_empty() && *l != "0").collect();
                used.sort();
                used.dedup();
                used.truncate(1);
                s["labels"] = json!(used);
                s["ops"] = json!([]);
                return s;
            }
            let mut ops: Vec<Value> = vec![];
            let early = rng.chance(2, 3);
            if early {
                for m in LABELS.iter().filter(|m| **m != "0" && rng.chance(2, 3)) {
                    ops.push(json!({"op": "label", "m": m}));
                }
            }
            let mut left = rng.range(6, 14);
            while left > 0 {
                left -= 1;
                match rng.below(12) {
                    0 if !early || rng.chance(1, 4) => ops.push(json!({"op": "label", "m": *rng.pick(&LABELS[..3])})),
                    1 => ops.push(json!({"op": *rng.pick(&["code", "again"])})),
                    2 | 3 => {
                        ops.push(json!({"op": "balance"}));
                        ops.push(pay_op(&mut rng));
                    }
                    4 => ops.push(json!({"op": "refused", "how": *rng.pick(&["both", "neither", "network", "code", "auth", "amount", "cut"])})),
                    5 => {
                        // the node moves, or fails, while the scan runs
                        let mut script = vec![];
                        for _ in 0..rng.range(0, 2) {
                            script.push(json!([rng.range(1, nb), rng.range(1, nb)]));
                        }
                        let fail = if rng.chance(1, 2) { rng.range(1, nb) } else { 0 };
                        ops.push(json!({"op": "node", "b": rng.range(1, nb)}));
                        ops.push(json!({"op": "scan", "script": script, "fail": fail, "how": *rng.pick(&["block", "prevout", "drop"])}));
                        ops.push(json!({"op": "balance"}));
                    }
                    _ => {
                        let b = rng.range(0, nb);
                        if b > 0 {
                            ops.push(json!({"op": "node", "b": b}));
                        }
                        ops.push(json!({"op": "scan", "script": [], "fail": 0, "how": ""}));
                        ops.push(json!({"op": "balance"}));
                    }
                }
            }
            if rng.chance(3, 4) {
                ops.push(pay_op(&mut rng));
                ops.push(json!({"op": "scan", "script": [], "fail": 0, "how": ""}));
                ops.push(json!({"op": "balance"}));
            }
            s["ops"] = json!(ops);
            s
        })
        .collect()
}
fn pay_op(rng: &mut Rng) -> Value {
    json!({"op": "pay", "share": *rng.pick(&[1u64, 5, 20, 35, 50, 65, 80, 95, 100, 101]), "less": *rng.pick(&[0u64, 0, 150, 320, 450, 700, 2000]),
           "to": *rng.pick(&TO), "algo": *rng.pick(&ALGOS), "mine": rng.chance(3, 4), "more": rng.next() % 1_000_000})
}

struct Keys {
    network: Network,
    name: &'static str,
    scan_desc: String,
    spend_desc: String,
    scan: SecretKey,
    spend: SecretKey,
}
impl Keys {
    fn new(env: &Env, id: usize) -> Keys {
        let secp = Secp256k1::new();
        let (network, name) = NETWORKS[id % 4];
        let x = Xpriv::new_master(network, &env.blob("master", 32)).unwrap();
        let coin = if network == Network::Bitcoin { 0 } else { 1 };
        let fp = x.fingerprint(&secp);
        // as `generate` writes them, or starting from a derived key
        let get = |p: &str| {
            let path = format!("352h/{coin}h/0h/{p}");
            let key = x.derive_priv(&secp, &DerivationPath::from_str(&format!("m/{path}")).unwrap()).unwrap();
            let desc = match id % 3 {
                0 => format!("tr([{fp}]{x}/{path})"),
                1 => format!("tr({x}/{path})"),
                _ => format!("tr([{fp}/{path}]{key})"),
            };
            (desc, key.private_key)
        };
        let (scan_desc, scan) = get("1h/0");
        let (spend_desc, spend) = get("0h/0");
        Keys { network, name, scan_desc, spend_desc, scan, spend }
    }
}
fn ranks(u: &Uni) -> Vec<usize> {
    let mut ids: Vec<Txid> = u.txs.iter().map(|t| t.compute_txid()).collect();
    ids.sort();
    u.txs.iter().map(|t| ids.binary_search(&t.compute_txid()).unwrap() + 1).collect()
}

/// Histories of the specification -> scenarios.
fn scripts(universes: &[Value], histories: &[Value]) -> Vec<Value> {
    let mut out = vec![];
    for (id, h) in histories.iter().enumerate() {
        let mut s = universes[h["sel"].as_u64().unwrap() as usize - 1].clone();
        let mut ops: Vec<Value> = vec![];
        let mut scan: Option<(Vec<Value>, usize)> = None;
        for e in h["ops"].as_array().unwrap() {
            match (e["op"].as_str().unwrap(), &mut scan) {
                ("label", _) => ops.push(json!({"op": "label", "m": e["m"]})),
                ("node", None) => ops.push(json!({"op": "node", "b": e["b"]})),
                ("node", Some((script, k))) => script.push(json!([*k, e["b"]])),
                ("start", _) => scan = Some((vec![], 0)),
                ("block", Some((_, k))) => *k += 1,
                (x @ ("end" | "fail"), Some((script, k))) => {
                    ops.push(json!({"op": "scan", "script": script, "fail": if x == "fail" { *k + 1 } else { 0 }, "how": if id % 2 == 0 { "block" } else { "prevout" }}));
                    ops.push(json!({"op": "balance"}));
                    scan = None;
                }
                x => panic!("{x:?}"),
            }
        }
        ops.push(json!({"op": "scan", "script": [], "fail": 0, "how": ""}));
        ops.push(json!({"op": "balance"}));
        s["id"] = json!(id);
        s["universe"] = h["sel"].clone();
        s["ops"] = json!(ops);
        out.push(s);
    }
    out
}

// --------------------------------------------------------------------- running
struct Cli {
    dir: PathBuf,
}
enum Ended {
    Ok(String),
    Failed(String),
    Hung,
}
impl Cli {
    fn at(dir: PathBuf) -> Cli {
        Cli { dir }
    }
    fn exe() -> PathBuf {
        std::env::current_exe().unwrap().parent().unwrap().join("sp-cli1")
    }
    fn run(&self, args: &[&str]) -> Ended {
        self.run_with(args, &[])
    }
    fn run_with(&self, args: &[&str], vars: &[(&str, &str)]) -> Ended {
        let mut c = Command::new(Cli::exe())
            .args(args)
            .current_dir(&self.dir)
            .env_clear()
            .envs(vars.iter().copied())
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("starting the wallet");
        let t0 = Instant::now();
        let mut wait = 1;
        loop {
            match c.try_wait().unwrap() {
                Some(_) => break,
                None if t0.elapsed() > Duration::from_secs(60) => {
                    let _ = c.kill();
                    let _ = c.wait();
                    return Ended::Hung;
                }
                None => std::thread::sleep(Duration::from_millis(wait)),
            }
            wait = (wait + 1).min(10);
        }
        let o = c.wait_with_output().unwrap();
        if o.status.success() {
            Ended::Ok(String::from_utf8_lossy(&o.stdout).into())
        } else {
            Ended::Failed(String::from_utf8_lossy(&o.stderr).into())
        }
    }
    /// Every JSON object printed.
    fn json(out: &str) -> Vec<Value> {
        hcore::serde_json::Deserializer::from_str(out).into_iter::<Value>().map_while(Result::ok).collect()
    }
}

struct World<'a> {
    s: Value,
    env: Env,
    u: Uni,
    k: &'a Keys,
    node: std::sync::Arc<Node>,
    events: Vec<Value>,
}

fn code(w: &World, label: Option<u32>) -> String {
    let spend = sc_add(Some(w.k.spend), label.map(|m| label_tweak(&w.k.scan, m))).unwrap();
    pay::code(w.env.point(&w.k.scan), w.env.point(&spend), w.k.network)
}

fn run(seed: u64, s: &Value, r: &mut Report) -> Value {
    let salt = s["salt"].as_str().unwrap();
    let env = Env::new(seed, salt);
    // a scenario made from a history uses the keys of its universe
    let keys_of = s["universe"].as_u64().map(|x| x - 1).unwrap_or(s["id"].as_u64().unwrap()) as usize;
    let k = Keys::new(&env, keys_of);
    let u = Uni::new(&env, s, k.scan, k.spend);
    let node = Node::start(&env, &u, s, k.network);
    let dir = std::env::temp_dir().join(format!("hcli-{}-{}", std::process::id(), s["id"]));
    std::fs::create_dir_all(&dir).unwrap();
    let cli = Cli::at(dir.clone());
    let mut w = World { s: s.clone(), env, u, k: &k, node, events: vec![] };
    r.checked += 1;
    steps(&cli, &mut w, r);
    w.node.stop();
    std::fs::remove_dir_all(&dir).unwrap();
    let rank = ranks(&w.u);
    json!({"id": s["id"], "txs": w.s["txs"], "blocks": w.s["blocks"], "rank": rank, "events": w.events, "case": s})
}

fn steps(cli: &Cli, w: &mut World, r: &mut Report) {
    let k = w.k;
    macro_rules! go {
        ($args:expr) => {
            match cli.run($args) {
                Ended::Hung => {
                    return r.bad(&w.s, "the wallet ends", "an answer".into(), format!("{:?} runs for 60 s", $args));
                }
                Ended::Ok(o) => Ok(o),
                // a scan whose node fails has no other way out
                Ended::Failed(e) if e.contains("panicked at") && $args[0] != "scan" && !e.lines().any(|l| l.starts_with("Error: ")) => {
                    return r.bad(&w.s, "the wallet answers or refuses with an error", "no panic".into(), format!("{:?}: {e}", $args));
                }
                Ended::Failed(e) => Err(e),
            }
        };
    }
    let init = ["init", "--network", k.name, "--scan", &k.scan_desc, "--spend", &k.spend_desc];
    if let Err(e) = go!(&init) {
        return r.bad(&w.s, "a wallet is created", "success".into(), e);
    }
    let base = code(w, None);
    let url = w.node.url();
    for o in w.s["ops"].as_array().unwrap().clone() {
        let op = o["op"].as_str().unwrap();
        r.count(&format!("step {op}"));
        match op {
            "label" => {
                let m = o["m"].as_str().unwrap();
                let want = code(w, Some(m.parse().unwrap()));
                let res = go!(&["code", "--label", m, "--scan", &k.scan_desc]);
                let shown = res.as_ref().ok().and_then(|x| Cli::json(x).into_iter().next()).map(|x| x["labelled_silent_payment_code"].clone());
                w.events.push(json!({"ev": "label", "m": m, "ok": shown == Some(json!(want)), "got": format!("{res:?}")}));
            }
            "code" => {
                let res = go!(&["code"]);
                let shown = res.as_ref().ok().and_then(|x| Cli::json(x).into_iter().next()).map(|x| x["silent_payment_code"].clone());
                w.events.push(json!({"ev": "code", "ok": shown == Some(json!(base)), "got": format!("{res:?}")}));
            }
            "again" => {
                // a file that exists is not replaced
                let res = go!(&init);
                w.events.push(json!({"ev": "code", "ok": res.is_err(), "got": format!("init again: {res:?}")}));
            }
            "refused" => {
                let other = pay::code(w.env.point(&w.env.base("rscan")), w.env.point(&w.env.base("rspend")), k.network);
                let (net, _) = NETWORKS[(NETWORKS.iter().position(|x| x.0 == k.network).unwrap() + 3) % 4];
                let here = pay::address(&w.env, k.network, true);
                // all test networks share their prefix except regtest, and mainnet has its own
                let wrong = pay::address(&w.env, if k.network == Network::Bitcoin { Network::Regtest } else if net == Network::Bitcoin { net } else { Network::Bitcoin }, true);
                let res = match o["how"].as_str().unwrap() {
                    "both" => go!(&["new-psbt", "1000", &here, "--code", &other, "--spend", &k.spend_desc]),
                    "code" => {
                        // the prefixes of codes: mainnet, regtest, all others
                        let net = match k.network {
                            Network::Bitcoin => [Network::Regtest, Network::Signet],
                            Network::Regtest => [Network::Bitcoin, Network::Testnet],
                            _ => [Network::Bitcoin, Network::Regtest],
                        }[r.checked as usize % 2];
                        let c = pay::code(w.env.point(&w.env.base("rscan")), w.env.point(&w.env.base("rspend")), net);
                        go!(&["new-psbt", "1000", "--code", &c, "--spend", &k.spend_desc])
                    }
                    "auth" => go!(&["scan", "--scan", &k.scan_desc, "--code", &base, "--url", &url, if r.checked % 2 == 0 { "--rpc-user" } else { "--rpc-password" }, "x"]),
                    "amount" => go!(&["new-psbt", ["-1", "x", "2100000000000001", "18446744073709551615"][r.checked as usize % 4], &here, "--spend", &k.spend_desc]),
                    "cut" => go!(&["new-psbt", "1000", "--code", &other[..other.len() - 1], "--spend", &k.spend_desc]),
                    "neither" => go!(&["new-psbt", "1000", "--spend", &k.spend_desc]),
                    _ => go!(&["new-psbt", "1000", &wrong, "--spend", &k.spend_desc]),
                };
                w.events.push(json!({"ev": "code", "ok": res.as_ref().is_err_and(|e| !e.contains("panicked at")), "got": format!("{}: {res:?}", o["how"])}));
            }
            "node" => {
                let b = o["b"].as_u64().unwrap() as usize;
                w.node.go(b);
                w.events.push(json!({"ev": "node", "b": b}));
            }
            "scan" => {
                let fail = o["fail"].as_u64().unwrap() as usize;
                w.node.script(o["script"].as_array().unwrap(), fail, o["how"].as_str().unwrap());
                let res = go!(&["scan", "--scan", &k.scan_desc, "--code", &base, "--url", &url]);
                let (log, hit) = w.node.take_log();
                w.events.push(json!({"ev": "start"}));
                r.counts.entry("blocks scanned".into()).and_modify(|x| *x += log.len() as u64).or_insert(log.len() as u64);
                if log.iter().any(|e| e["ev"] == "node") {
                    r.count("scans during which the node moved");
                }
                w.events.extend(log);
                let mut e = json!({"ev": "end", "ok": res.is_ok(), "injected": hit, "shown": false, "tip": 0, "total": 0, "got": format!("{res:?}")});
                if hit {
                    r.count("scans with a failing node");
                }
                if let Ok(out) = &res {
                    if let Some((tip, total)) = shown(w, out) {
                        e["shown"] = json!(true);
                        e["tip"] = json!(tip);
                        e["total"] = json!(total);
                        r.count("scans that show what they reached");
                    }
                }
                w.events.push(e);
            }
            "balance" => {
                let res = go!(&["balance"]);
                w.events.push(balance(&res));
            }
            "pay" => {
                let res = go!(&["balance"]);
                let b = balance(&res);
                w.events.push(b.clone());
                if b["ok"] != true {
                    return;
                }
                let total = b["shows"]["total"].as_u64().unwrap() + b["shows"]["pending"].as_u64().unwrap();
                let value = (total * o["share"].as_u64().unwrap() / 100).saturating_sub(o["less"].as_u64().unwrap()).max(1000);
                let to = pay::recipient(w, o["to"].as_str().unwrap());
                let v = value.to_string();
                let mut args = vec!["new-psbt", &v];
                match &to.code {
                    Some(c) => args.extend(["--code", c]),
                    None => args.push(to.address.as_deref().unwrap()),
                }
                args.extend(["--coin-select", o["algo"].as_str().unwrap(), "--spend", &k.spend_desc]);
                let psbt = match go!(&args) {
                    Err(e) => {
                        r.count("payments refused");
                        w.events.push(json!({"ev": "pay", "ok": false, "value": value, "got": e}));
                        continue;
                    }
                    Ok(out) => Cli::json(&out).into_iter().next().unwrap_or_default(),
                };
                let raw = psbt["psbt"].as_str().unwrap_or("").to_string();
                // keys of another wallet neither build nor sign
                let other = format!("tr({}/352h/1h/0h/0h/0)", Xpriv::new_master(k.network, &w.env.blob("another", 32)).unwrap());
                let at = args.len() - 1;
                for wrong in [&other, &k.scan_desc] {
                    args[at] = wrong;
                    let a = go!(&args);
                    let b = go!(&["sign-psbt", "--psbt", &raw, "--spend", wrong]);
                    let no = |x: &Result<String, String>| x.as_ref().is_err_and(|e| !e.contains("panicked at"));
                    // it takes no key to pay an address with nothing left over
                    let ok = no(&b) && (no(&a) || a.as_ref().is_ok_and(|x| pay::only_pays(&to, x)));
                    w.events.push(json!({"ev": "code", "ok": ok, "got": format!("with keys of another wallet: {a:?} {b:?}")}));
                }
                // a transaction several people take part in
                for (kind, p) in pay::joint(w, &raw, o["more"].as_u64().unwrap()) {
                    r.count(&format!("transactions to sign: {kind}"));
                    let ans = go!(&["sign-psbt", "--psbt", &p, "--spend", &k.spend_desc]);
                    let e = pay::judge_joint(w, kind, &p, ans);
                    w.events.push(e);
                }
                let signed = match go!(&["sign-psbt", "--psbt", &raw, "--spend", &k.spend_desc]) {
                    Err(e) => return r.bad(&w.s, "a payment it built is signed", "success".into(), e),
                    Ok(out) => Cli::json(&out).into_iter().next().unwrap_or_default()["psbt"].as_str().unwrap_or("").to_string(),
                };
                match pay::judge(w, &to, value, &psbt, &signed) {
                    Err(x) => return r.bad(&w.s, "the signed transaction is the one that was built", "the same transaction, over known outputs".into(), x),
                    Ok((e, tx)) => {
                        r.count("payments");
                        r.count(&format!("payments to {}", o["to"].as_str().unwrap()));
                        if tx.input.len() > 1 {
                            r.count("payments with several inputs");
                        }
                        if e["outs"].as_array().unwrap().iter().any(|x| x["who"] == "change") {
                            r.count("payments with change");
                        }
                        w.events.push(e);
                        if o["mine"] == true {
                            if let Some(b) = pay::mine(w, tx) {
                                r.count("payments mined");
                                w.node.go(b);
                                w.events.push(json!({"ev": "node", "b": b}));
                            }
                        }
                    }
                }
            }
            x => panic!("unknown op {x}"),
        }
    }
}

/// What a scan says it reached: the block and the total.
fn shown(w: &World, out: &str) -> Option<(usize, u64)> {
    let line = out.lines().rev().find(|l| l.contains("synced to "))?;
    let rest = line.split("synced to ").nth(1)?;
    let hash = rest.split_whitespace().next()?;
    let total = rest.split("total: ").nth(1)?.trim();
    let total = hcore::bitcoin::Amount::from_str(total).ok()?.to_sat();
    Some((w.node.number(hash)?, total))
}

fn balance(res: &Result<String, String>) -> Value {
    let v = res.as_ref().map(|x| Cli::json(x)).unwrap_or_default();
    let get = |a: &str, b: &str| v.iter().find_map(|x| x.get(a).and_then(|x| x[b].as_u64()));
    let all = [("total", "confirmed", "total"), ("spendable", "confirmed", "spendable"), ("immature", "confirmed", "immature"),
        ("pending", "unconfirmed", "total"), ("trusted", "unconfirmed", "trusted"), ("untrusted", "unconfirmed", "untrusted")];
    let mut shows = json!({});
    for (name, a, b) in all {
        match get(a, b) {
            Some(x) => shows[name] = json!(x),
            None => return json!({"ev": "balance", "ok": false, "shows": {}, "got": format!("{res:?}")}),
        }
    }
    json!({"ev": "balance", "ok": true, "shows": shows})
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let write = |p: &str, v: &[Value]| std::fs::write(p, v.iter().map(|x| format!("{x}\n")).collect::<String>()).unwrap();
    match a[1].as_str() {
        "gen" if a[2] == "C22" => write(&a[5], &replace::generate(a[3].parse().unwrap(), a[4].parse().unwrap())),
        "gen" => write(&a[5], &generate(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap())),
        "script" => write(&a[4], &scripts(&hcore::read_lines(&a[2]), &hcore::read_lines(&a[3]))),
        // run WHAT SEED SCENARIOS TRACES REPORT
        "run" => {
            let seed: u64 = a[3].parse().unwrap();
            let traces = std::sync::Mutex::new(vec![]);
            let base = replace::scratch(&a[2]);
            if a[2] == "C22" {
                replace::prepare(&base);
            }
            let none = format!("{}.none", a[5]);
            let scns = hcore::read_lines(&a[4]);
            write(&none, &scns.iter().map(|s| json!({"id": s["id"]})).collect::<Vec<_>>());
            hcore::each(&a[4], &none, &a[6], |s, _, r| {
                r.checked -= 1;
                let t = if a[2] == "C22" { replace::run(seed, s, &base, r) } else { run(seed, s, r) };
                traces.lock().unwrap().push(t);
            });
            std::fs::remove_file(none).unwrap();
            let _ = std::fs::remove_dir_all(&base);
            let mut t = traces.into_inner().unwrap();
            t.sort_by_key(|x| x["id"].as_u64());
            write(&a[5], &t);
        }
        // judge22 TRACES VERDICTS REPORT
        "judge22" => {
            let mut r = Report::default();
            let verdicts = hcore::read_lines(&a[3]);
            let by: std::collections::HashMap<u64, &Value> = verdicts.iter().map(|v| (v["id"].as_u64().unwrap(), v)).collect();
            for t in hcore::read_lines(&a[2]) {
                r.checked += 1;
                let v = by[&t["id"].as_u64().unwrap()];
                r.count(&format!("requests that call for {}", v["want"].as_str().unwrap()));
                if v["ok"] == true {
                    r.comparisons += 1;
                } else {
                    r.bad(&t, "the answer to a request for a silent payment", v["want"].as_str().unwrap().into(), t["a"].to_string());
                }
                if r.samples.len() < 2 {
                    r.samples.push(t);
                }
            }
            r.finish(&a[4]);
        }
        // judge TRACES VERDICTS REPORT
        "judge" => {
            let mut r = Report::default();
            let verdicts = hcore::read_lines(&a[3]);
            let by: std::collections::HashMap<u64, &Value> = verdicts.iter().map(|v| (v["id"].as_u64().unwrap(), v)).collect();
            for t in hcore::read_lines(&a[2]) {
                r.checked += 1;
                let v = by[&t["id"].as_u64().unwrap()];
                r.counts.entry("events".into()).and_modify(|x| *x += t["events"].as_array().unwrap().len() as u64).or_insert(0);
                match v["bad"].as_u64().unwrap() {
                    0 => r.comparisons += t["events"].as_array().unwrap().len() as u64,
                    i => {
                        let e = &t["events"][i as usize - 1];
                        let what = match e["ev"].as_str().unwrap() {
                            "label" => "a labelled code is the one the keys prescribe",
                            "code" => "the code is shown, and what cannot be done is refused",
                            "end" => "a scan reads every block up to the tip of the node and shows what it found",
                            "balance" => "the balance is that of the best chain",
                            "sign" => "only the wallet's own inputs are signed, nothing else changes, and what cannot be signed is refused",
                            "pay" => "a payment spends the wallet's outputs, pays recipient and change, and is signed",
                            x => x,
                        };
                        let x = format!("event {i}, allowed from {}", v["states"]);
                        r.bad(&t, what, x, e.to_string());
                    }
                }
                if r.samples.len() < 2 {
                    r.samples.push(json!({"events": t["events"]}));
                }
            }
            r.finish(&a[4]);
        }
        x => panic!("unknown command {x}"),
    }
}
