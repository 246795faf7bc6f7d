//! C25: what the two wallet programs keep in their files when storing fails, when a crash leaves a
//! part of what was stored, and when a scan is ended by force. What happened is recorded as a trace,
//! which EvalStore.tla judges.
#[allow(dead_code)]
#[path = "../../cli/src/node.rs"]
mod node;
mod keys;
use hcore::bitcoin::bip32::{DerivationPath, Xpriv};
use hcore::bitcoin::secp256k1::{Secp256k1, SecretKey};
use hcore::bitcoin::{Amount, Network};
use hcore::serde_json::{self, json, Value};
use hcore::universe::{label_tweak, Uni};
use hcore::{sc_add, Env, Report, Rng};
use node::Node;
use std::collections::HashMap;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const CODES: [&str; 3] = ["1", "2", "7"];
/// Late answers: together a little more than the minute after which a scan stores what it has.
const LATE: (Duration, usize) = (Duration::from_millis(12_600), 5);

// ------------------------------------------------------------------ scenarios
/// A chain of n blocks that pay the wallet.
fn chain(rng: &mut Rng, n: usize) -> Value {
    let (mut txs, mut blocks) = (vec![], vec![]);
    let mut ext = 0;
    for b in 1..=n {
        let mut inside = vec![];
        for _ in 0..rng.range(0, 2) {
            ext += 2;
            let nouts = rng.range(1, 3);
            let label = match rng.below(8) {
                0..=2 => "",
                3 => "0",
                _ => *rng.pick(&CODES),
            };
            // one payment each: a code that is not known yet hides no other
            let slots = json!([{"out": rng.below(nouts), "k": 0, "label": label}]);
            txs.push(json!({"ins": [[0, ext]], "slots": slots, "nouts": nouts, "cb": false}));
            inside.push(txs.len());
        }
        blocks.push(json!({"txs": inside, "height": b, "prev": b - 1}));
    }
    for b in blocks.iter_mut() {
        txs.push(json!({"ins": [], "slots": [], "nouts": 1, "cb": true}));
        b["txs"].as_array_mut().unwrap().insert(0, json!(txs.len()));
    }
    json!({"txs": txs, "blocks": blocks})
}
/// The chain of the model.
fn small() -> Value {
    let tx = |ext: u64, label: &str| json!({"ins": [[0, ext]], "slots": [{"out": 0, "k": 0, "label": label}], "nouts": 2, "cb": false});
    let cb = json!({"ins": [], "slots": [], "nouts": 1, "cb": true});
    json!({"txs": [tx(2, ""), tx(4, "1"), tx(6, "1"), tx(8, ""), cb, cb],
        "blocks": [{"txs": [5, 1, 2], "height": 1, "prev": 0}, {"txs": [6, 3, 4], "height": 2, "prev": 1}]})
}
fn generate(seed: u64, n: usize, slow: usize) -> Vec<Value> {
    (0..n)
        .map(|id| {
            let salt = format!("store/{id}");
            let mut rng = Rng::new(seed, &salt);
            // the slow ones come first
            let is_slow = id < slow;
            let nb = if is_slow { rng.range(6, 8) } else { rng.range(2, 6) };
            let mut s = chain(&mut rng, nb);
            let mut ops: Vec<Value> = vec![];
            let mut to = 0;
            if rng.chance(1, 6) {
                ops.push(json!({"op": *rng.pick(&["balance", "label", "scan"]), "m": "1", "to": 1, "room": true}));
            }
            for _ in 0..if rng.chance(1, 3) { rng.range(1, 2) } else { 0 } {
                ops.push(json!({"op": "new", "room": false}));
                if rng.chance(1, 2) {
                    ops.push(json!({"op": *rng.pick(&["balance", "label", "scan", "new"]), "m": "1", "to": 1, "room": true}));
                }
                ops.push(json!({"op": "remove"}));
            }
            ops.push(json!({"op": "new", "room": true}));
            let slow_at = if is_slow { rng.below(3) } else { 99 };
            let many = rng.range(3, 9);
            for i in 0..many {
                if i == slow_at {
                    let from = to + 1;
                    if rng.chance(3, 5) {
                        let x = rng.range((from + 2).min(nb), nb);
                        ops.push(json!({"op": "kill", "x": x, "slow": from}));
                        to = x - 1;
                    } else {
                        // with room, or with room only later
                        let lift = rng.chance(2, 3);
                        ops.push(json!({"op": "scan", "to": nb, "slow": from, "room": !lift, "lift": lift}));
                        to = nb;
                    }
                    ops.push(json!({"op": "balance"}));
                    continue;
                }
                let sound = is_slow && i < slow_at;
                let room = sound || rng.chance(4, 5);
                // a slow one needs blocks to scan
                let most = if i < slow_at && is_slow { (to + 1).min(2) } else { nb };
                match rng.below(10) {
                    0..=2 => ops.push(json!({"op": "label", "m": *rng.pick(&CODES), "room": room})),
                    3..=5 => {
                        to = rng.range(to.min(most), most);
                        ops.push(json!({"op": "scan", "to": to, "room": room}));
                    }
                    6 if to < most => {
                        let x = rng.range(to + 1, most);
                        ops.push(json!({"op": "kill", "x": x}));
                        to = x - 1;
                    }
                    7 => ops.push(json!({"op": "new", "room": room})),
                    8 => ops.push(json!({"op": "balance"})),
                    _ => ops.push(json!({"op": "cut", "inside": !sound && rng.chance(2, 3)})),
                }
                if rng.chance(1, 2) {
                    ops.push(json!({"op": "balance"}));
                }
                let torn = ops.last().is_some_and(|o| o["op"] == "cut" || o["room"] == false);
                if rng.chance(if torn { 2 } else { 1 }, 5) {
                    ops.push(json!({"op": "repair"}));
                }
            }
            if rng.chance(2, 3) {
                ops.push(json!({"op": "repair"}));
            }
            ops.push(json!({"op": "scan", "to": nb, "room": true}));
            ops.push(json!({"op": "balance"}));
            s["id"] = json!(id);
            s["salt"] = json!(salt);
            s["prog"] = json!(id % 2 + 1);
            s["ops"] = json!(ops);
            s
        })
        .collect()
}
/// Histories of the specification -> scenarios.
fn scripts(histories: &[Value]) -> Vec<Value> {
    let mut out = vec![];
    for h in histories {
        for prog in [1, 2] {
            let mut s = small();
            let mut ops: Vec<Value> = vec![];
            for o in h["ops"].as_array().unwrap() {
                let op = o["op"].as_str().unwrap();
                ops.push(match op {
                    "scan" => json!({"op": op, "to": o["x"], "room": o["room"]}),
                    "kill" => json!({"op": op, "x": o["x"]}),
                    "cut" => json!({"op": op, "inside": o["room"]}),
                    "label" => json!({"op": op, "m": "1", "room": o["room"]}),
                    _ => json!({"op": op, "room": o["room"]}),
                });
            }
            ops.push(json!({"op": "balance"}));
            ops.push(json!({"op": "scan", "to": 2, "room": true}));
            ops.push(json!({"op": "balance"}));
            s["id"] = json!(out.len());
            s["salt"] = json!(format!("history/{}", out.len()));
            s["prog"] = json!(prog);
            s["ops"] = json!(ops);
            out.push(s);
        }
    }
    out
}

// --------------------------------------------------------------------- running
enum Ended {
    Ok(String),
    /// with what it had printed, and with what it said was wrong
    Failed(String, String),
    /// by force, with what it had printed
    Killed(String),
    Hung,
}
#[derive(Clone, Copy, PartialEq)]
enum Limit {
    None,
    /// no file may become longer: writing more fails
    Full(u64),
    /// writing more ends the program
    Crash(u64),
}
struct Cli {
    prog: u64,
    dir: PathBuf,
    env: Vec<(&'static str, String)>,
}
impl Cli {
    fn file(&self) -> PathBuf {
        self.dir.join(if self.prog == 1 { ".bdk_example_silentpayments.db" } else { "wallet.db" })
    }
    fn len(&self) -> u64 {
        std::fs::metadata(self.file()).map(|m| m.len()).unwrap_or(0)
    }
    fn start(&self, args: &[String], limit: Limit) -> Child {
        let exe = std::env::current_exe().unwrap().parent().unwrap().join(if self.prog == 1 { "sp-cli1" } else { "sp-cli2" });
        let mut c = match limit {
            Limit::None => Command::new(exe),
            Limit::Full(n) | Limit::Crash(n) => {
                let mut c = Command::new("/bin/sh");
                let quiet = if matches!(limit, Limit::Full(_)) { "trap '' XFSZ; " } else { "" };
                c.arg("-c").arg(format!("{quiet}exec /usr/bin/prlimit --core=0 --fsize={n}: -- \"$0\" \"$@\"")).arg(exe);
                c
            }
        };
        c.args(args).current_dir(&self.dir).env_clear().stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        c.envs(self.env.iter().map(|(k, v)| (k, v)));
        if self.prog == 2 {
            c.env("DB_PATH", "wallet.db").env("RUST_LOG", "off");
        }
        c.spawn().expect("starting the wallet")
    }
    /// Runs a command until it ends, or until `stop` says that it is to be ended.
    fn run(&self, args: &[String], limit: Limit, stop: impl Fn(u32) -> bool) -> Ended {
        let mut c = self.start(args, limit);
        let reader = |mut x: Box<dyn Read + Send>| {
            std::thread::spawn(move || {
                let mut v = vec![];
                let _ = x.read_to_end(&mut v);
                String::from_utf8_lossy(&v).to_string()
            })
        };
        let out = reader(Box::new(c.stdout.take().unwrap()));
        let err = reader(Box::new(c.stderr.take().unwrap()));
        let t0 = Instant::now();
        let mut wait = 1;
        let (mut by_force, mut hung) = (false, false);
        let status = loop {
            if let Some(s) = c.try_wait().unwrap() {
                break s;
            }
            if !by_force && (stop(c.id()) || t0.elapsed() > Duration::from_secs(180)) {
                by_force = true;
                hung = !stop(c.id());
                let _ = c.kill();
            }
            std::thread::sleep(Duration::from_millis(wait));
            wait = (wait + 1).min(10);
        };
        let (out, err) = (out.join().unwrap(), err.join().unwrap());
        if hung {
            Ended::Hung
        } else if by_force {
            Ended::Killed(out)
        } else if status.success() {
            Ended::Ok(out)
        } else {
            Ended::Failed(out, err)
        }
    }
    fn json(out: &str) -> Vec<Value> {
        serde_json::Deserializer::from_str(out).into_iter::<Value>().map_while(Result::ok).collect()
    }
}

struct Keys {
    scan: SecretKey,
    spend: SecretKey,
    scan_desc: String,
    spend_desc: String,
}
impl Keys {
    fn of(x: &Xpriv) -> Keys {
        let secp = Secp256k1::new();
        let fp = x.fingerprint(&secp);
        let get = |p: &str| {
            let path = format!("352h/1h/0h/{p}");
            let key = x.derive_priv(&secp, &DerivationPath::from_str(&format!("m/{path}")).unwrap()).unwrap();
            (format!("tr([{fp}]{x}/{path})"), key.private_key)
        };
        let ((scan_desc, scan), (spend_desc, spend)) = (get("1h/0"), get("0h/0"));
        Keys { scan, spend, scan_desc, spend_desc }
    }
    fn code(&self, env: &Env, label: Option<u32>) -> String {
        let spend = sc_add(Some(self.spend), label.map(|m| label_tweak(&self.scan, m))).unwrap();
        bdk_sp::encoding::SilentPaymentCode::new_v0(env.point(&self.scan), env.point(&spend), Network::Regtest).to_string()
    }
}
struct World {
    s: Value,
    env: Env,
    k: Keys,
    u: Uni,
    node: Arc<Node>,
    cli: Cli,
    events: Vec<Value>,
}
impl World {
    fn keys(&mut self, x: &Xpriv) {
        self.k = Keys::of(x);
        self.u = Uni::new(&self.env, &self.s, self.k.scan, self.k.spend);
        self.node.stop();
        self.node = Node::start(&self.env, &self.u, &self.s, Network::Regtest);
    }
    fn args(&self, o: &Value) -> Vec<String> {
        let one = self.cli.prog == 1;
        let url = self.node.url();
        let genesis = hcore::bitcoin::constants::genesis_block(Network::Regtest).block_hash().to_string();
        let m = o["m"].as_str().unwrap_or("");
        let v: Vec<&str> = match (o["op"].as_str().unwrap(), one) {
            ("new", true) => vec!["init", "--network", "regtest", "--scan", &self.k.scan_desc, "--spend", &self.k.spend_desc],
            ("new", false) => vec!["create", "--network", "regtest", "--birthday-height", "0", "--birthday-hash", &genesis],
            ("label", true) => vec!["code", "--label", m, "--scan", &self.k.scan_desc],
            ("label", false) => vec!["code", "--label", m],
            ("scan" | "kill", true) => {
                return ["scan", "--scan", &self.k.scan_desc, "--code", &self.k.code(&self.env, None), "--url", &url].map(String::from).into();
            }
            ("scan" | "kill", false) => vec!["scan-rpc", "--url", &url],
            _ => vec!["balance"],
        };
        v.into_iter().map(String::from).collect()
    }
    /// What a scan says about its way: the block and the sum.
    fn lines(&self, out: &str) -> Vec<Value> {
        out.lines()
            .filter_map(|l| {
                let rest = l.split("synced to ").nth(1)?;
                let b = self.node.number(rest.split_whitespace().next()?)?;
                let total = Amount::from_str(rest.split("total: ").nth(1)?.trim()).ok()?.to_sat();
                Some(json!({"b": b, "total": total}))
            })
            .collect()
    }
}
fn balance(out: &str) -> Option<u64> {
    let v = Cli::json(out);
    let get = |a: &str| v.iter().find_map(|x| x.get(a).and_then(|x| x["total"].as_u64()));
    Some(get("confirmed")? + get("unconfirmed")?)
}
fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        if e.file_type().unwrap().is_file() {
            std::fs::copy(e.path(), to.join(e.file_name())).unwrap();
        }
    }
}

fn run(seed: u64, s: &Value, r: &mut Report) -> Value {
    let env = Env::new(seed, s["salt"].as_str().unwrap());
    let dir = std::env::temp_dir().join(format!("hstore-{}-{}", std::process::id(), s["id"]));
    std::fs::create_dir_all(&dir).unwrap();
    let x = Xpriv::new_master(Network::Regtest, &env.blob("master", 32)).unwrap();
    let k = Keys::of(&x);
    let u = Uni::new(&env, s, k.scan, k.spend);
    let node = Node::start(&env, &u, s, Network::Regtest);
    let cli = Cli { prog: s["prog"].as_u64().unwrap(), dir: dir.clone(), env: vec![] };
    let mut w = World { s: s.clone(), env, k, u, node, cli, events: vec![] };
    r.checked += 1;
    steps(&mut w, r);
    w.node.stop();
    std::fs::remove_dir_all(&dir).unwrap();
    let mut pays = vec![];
    for (b, block) in s["blocks"].as_array().unwrap().iter().enumerate() {
        for t in block["txs"].as_array().unwrap() {
            let t = t.as_u64().unwrap() as usize - 1;
            for sl in s["txs"][t]["slots"].as_array().unwrap() {
                let v = w.u.txs[t].output[sl["out"].as_u64().unwrap() as usize].value.to_sat();
                pays.push(json!({"b": b + 1, "label": sl["label"], "v": v}));
            }
        }
    }
    json!({"id": s["id"], "n": s["blocks"].as_array().unwrap().len(), "pays": pays, "events": w.events, "case": s})
}

fn steps(w: &mut World, r: &mut Report) {
    let mut rng = Rng::new(1, &format!("limits/{}", w.s["salt"]));
    // the length of the file before the last command, when that stored something; whether there is a wallet
    let (mut before, mut made) = (None, false);
    // the length up to which the last command is known to have stored
    let mut whole = Some(0);
    let mut top = 0;
    for o in w.s["ops"].as_array().unwrap().clone() {
        let op = o["op"].as_str().unwrap();
        r.count(&format!("step {op}"));
        let len = w.cli.len();
        let there = w.cli.file().exists();
        match op {
            "remove" => {
                if there && !made {
                    std::fs::remove_file(w.cli.file()).unwrap();
                    w.events.push(json!({"ev": "removed"}));
                    before = None;
                }
                continue;
            }
            "cut" => {
                let Some(at) = before.take() else { continue };
                let inside = o["inside"] == true && len > at + 1;
                let to = if inside { at + 1 + rng.below((len - at - 1) as usize) as u64 } else { at };
                std::fs::OpenOptions::new().write(true).open(w.cli.file()).unwrap().set_len(to).unwrap();
                made = made && at > 0;
                whole = Some(at);
                r.count(if inside { "crashes inside what was stored" } else { "crashes before it was stored" });
                w.events.push(json!({"ev": "cut", "inside": inside, "to": to, "of": len}));
                continue;
            }
            "repair" => {
                // what a crash left behind the last whole record is cut off by hand
                if let Some(whole) = whole.filter(|x| there && made && len > *x) {
                    std::fs::OpenOptions::new().write(true).open(w.cli.file()).unwrap().set_len(whole).unwrap();
                    w.events.push(json!({"ev": "repaired"}));
                    r.count("files repaired by hand");
                    before = None;
                }
                continue;
            }
            _ => {}
        }
        let slow = o["slow"].as_u64().unwrap_or(0) as usize;
        let mut never = 0;
        if op == "scan" {
            top = top.max(o["to"].as_u64().unwrap() as usize);
            w.node.go(top);
        }
        if op == "kill" {
            never = o["x"].as_u64().unwrap() as usize;
            if never <= top {
                continue;
            }
            w.node.go(w.s["blocks"].as_array().unwrap().len());
        }
        w.node.script(&[], 0, "");
        w.node.hold((slow, LATE.0), if slow > 0 { LATE.1 } else { 0 }, never);
        // how far the file grows when there is room
        let mut limit = Limit::None;
        let lift = o["lift"] == true;
        if lift {
            limit = Limit::Full(len + rng.below(30) as u64);
        } else if o["room"] == false {
            let other = Cli { prog: w.cli.prog, dir: w.cli.dir.join("other"), env: vec![] };
            copy(&w.cli.dir, &other.dir);
            let done = other.run(&w.args(&o), Limit::None, |_| false);
            let grown = other.len();
            std::fs::remove_dir_all(&other.dir).unwrap();
            w.node.script(&[], 0, "");
            if matches!(done, Ended::Ok(_)) && grown > len + 8 {
                // key material is not always equally long
                let n = len + rng.below((grown - len - 4) as usize) as u64;
                limit = if rng.chance(2, 3) { Limit::Full(n) } else { Limit::Crash(n) };
            }
        }
        let room = limit == Limit::None;
        let bytes = |w: &World| std::fs::read(w.cli.file()).unwrap_or_default();
        let held = bytes(w);
        let node = w.node.clone();
        let lifted = std::cell::Cell::new(!lift);
        let res = w.cli.run(&w.args(&o), limit, |pid| {
            let (sent, crossed) = node.sent();
            if !lifted.get() && crossed > 0 && sent > crossed + 1 {
                // after the first attempt to store something there is room again
                let _ = Command::new("/usr/bin/prlimit").args(["--pid", &pid.to_string(), "--fsize=unlimited:"]).output();
                lifted.set(true);
            }
            never > 0 && node.held()
        });
        let panicked = |e: &str| if e.contains("panicked at") { "panic" } else { "no" };
        let (ans, out, got) = match &res {
            Ended::Hung => return r.bad(&w.s, "the wallet ends", "an answer".into(), format!("{:?} runs for three minutes", w.args(&o))),
            Ended::Ok(x) => ("ok", x.clone(), String::new()),
            Ended::Failed(x, e) => (panicked(e), x.clone(), e.chars().take(300).collect()),
            Ended::Killed(x) => ("killed", x.clone(), String::new()),
        };
        if !room {
            r.count(if ans == "ok" { "commands that needed no room" } else { "commands that could not store" });
        } else if ans == "no" {
            r.count("commands refused");
        }
        let mut ans = ans.to_string();
        let same = bytes(w) == held;
        let last = before.take();
        let (sent, crossed) = w.node.sent();
        match op {
            "new" => {
                if ans == "ok" && w.cli.prog == 2 {
                    let desc = Cli::json(&out).first().map(|v| v["tr_xprv"].as_str().unwrap_or("").to_string()).unwrap_or_default();
                    let x = desc.strip_suffix(')').and_then(|x| x.split_once(']')).and_then(|x| Xpriv::from_str(x.1).ok());
                    match x {
                        Some(x) => w.keys(&x),
                        None => ans = "wrong".into(),
                    }
                }
                made = made || ans == "ok";
                w.events.push(json!({"ev": "new", "ans": ans, "room": room, "same": same, "got": got}));
            }
            "label" => {
                let want = w.k.code(&w.env, Some(o["m"].as_str().unwrap().parse().unwrap()));
                if ans == "ok" && !out.contains(&want) {
                    ans = "wrong".into();
                }
                w.events.push(json!({"ev": "label", "m": o["m"], "ans": ans, "room": room, "same": same, "got": got}));
            }
            "balance" => {
                let total = balance(&out);
                if ans == "ok" && total.is_none() {
                    ans = "wrong".into();
                }
                w.events.push(json!({"ev": "balance", "ans": ans, "same": same, "total": total.unwrap_or(0), "got": got}));
                if w.cli.len() == len && there {
                    // the last write is still the last one
                    before = last;
                    continue;
                }
            }
            _ if ans == "killed" => {
                top = top.max(never - 1);
                let said = if out.contains("committed to db") { crossed } else { 0 };
                r.count("scans ended by force");
                if said > 0 {
                    r.count("scans ended after they had stored something");
                }
                let lines = w.lines(&out);
                r.counts.entry("sums shown on the way".into()).and_modify(|x| *x += lines.len() as u64).or_insert(lines.len() as u64);
                w.events.push(json!({"ev": "killed", "got": never - 1, "said": said, "lines": lines, "sent": sent}));
            }
            _ => {
                if slow > 0 {
                    r.count("slow scans that finished");
                }
                let lines = w.lines(&out);
                let said = if out.contains("committed to db") { crossed } else { 0 };
                if lift {
                    r.count("scans that could not store on their way");
                }
                let to = if op == "kill" { w.s["blocks"].as_array().unwrap().len() } else { top };
                top = top.max(to);
                w.events.push(json!({"ev": "scan", "to": to, "said": said, "ans": ans, "room": room, "same": same, "lines": lines, "got": got}));
            }
        }
        w.node.hold((0, Duration::ZERO), 0, 0);
        if ans == "ok" || ans == "killed" {
            whole = Some(w.cli.len());
        } else if out.contains("committed to db") {
            // a part of it was stored, nobody knows how long that is
            whole = None;
        }
        // what is cut off is what the last command stored at once
        if ans == "ok" && w.cli.len() > len && slow == 0 {
            before = Some(len);
        }
    }
}

fn judge(a: &[String], what: &str) {
    let mut r = Report::default();
    let verdicts = hcore::read_lines(&a[3]);
    let by: HashMap<u64, &Value> = verdicts.iter().map(|v| (v["id"].as_u64().unwrap(), v)).collect();
    for t in hcore::read_lines(&a[2]) {
        r.checked += 1;
        let v = by[&t["id"].as_u64().unwrap()];
        r.counts.entry("events".into()).and_modify(|x| *x += t["events"].as_array().unwrap().len() as u64).or_insert(0);
        match v["bad"].as_u64().unwrap() {
            0 => r.comparisons += t["events"].as_array().unwrap().len() as u64,
            i => {
                let e = &t["events"][i as usize - 1];
                let x = format!("event {i}, allowed from {}", if v["states"].is_null() { v } else { &v["states"] });
                r.bad(&t, what, x, e.to_string());
            }
        }
        if r.samples.len() < 2 {
            r.samples.push(json!({"events": t["events"]}));
        }
    }
    r.finish(&a[4]);
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let write = |p: &str, v: &[Value]| std::fs::write(p, v.iter().map(|x| format!("{x}\n")).collect::<String>()).unwrap();
    match a[1].as_str() {
        // gen SEED N SLOW SCENARIOS
        "gen" => write(&a[5], &generate(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap())),
        "script" => write(&a[3], &scripts(&hcore::read_lines(&a[2]))),
        // run SEED THREADS SCENARIOS TRACES REPORT
        "run" => {
            let seed: u64 = a[2].parse().unwrap();
            let traces = Mutex::new(vec![]);
            let none = format!("{}.none", a[5]);
            let scns = hcore::read_lines(&a[4]);
            write(&none, &scns.iter().map(|s| json!({"id": s["id"]})).collect::<Vec<_>>());
            hcore::each_on(a[3].parse().unwrap(), &a[4], &none, &a[6], |s, _, r| {
                r.checked -= 1;
                let t = run(seed, s, r);
                traces.lock().unwrap().push(t);
            });
            std::fs::remove_file(none).unwrap();
            let mut t = traces.into_inner().unwrap();
            t.sort_by_key(|x| x["id"].as_u64());
            write(&a[5], &t);
        }
        // judge TRACES VERDICTS REPORT
        "judge" => judge(&a, "a wallet holds what its commands said they stored, and never anything else"),
        // keys: kgen SEED N SCENARIOS / kscript HISTORIES SCENARIOS / krun SEED SCENARIOS TRACES REPORT / judge
        "kgen" => write(&a[4], &keys::generate(a[2].parse().unwrap(), a[3].parse().unwrap())),
        "kscript" => write(&a[3], &keys::scripts(&hcore::read_lines(&a[2]))),
        "krun" => write(&a[4], &keys::run_all(a[2].parse().unwrap(), &a[3], &a[5])),
        "kjudge" => judge(&a, "the keys of a wallet are fresh, where BIP352 puts them, and those it was given"),
        x => panic!("unknown command {x}"),
    }
}
