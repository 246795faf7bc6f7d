//! C24: the keys of wallets. What the two programs print and do is made symbolic (which seed, which
//! path) and judged by EvalKeys.tla.
use super::{node::Node, small, Cli, Ended, Limit};
use bdk_sp::encoding::SilentPaymentCode;
use hcore::bitcoin::bip32::{ChildNumber, DerivationPath, Xpriv, Xpub};
use hcore::bitcoin::secp256k1::{PublicKey, Secp256k1, SecretKey};
use hcore::bitcoin::{Network, PrivateKey};
use hcore::serde_json::{json, Value};
use hcore::universe::{label_tweak, Uni};
use hcore::{Env, Report, Rng};
use std::collections::{BTreeMap, HashSet};
use std::str::FromStr;
use std::sync::{Arc, Mutex};

const NETS: [&str; 5] = ["bitcoin", "testnet", "testnet4", "signet", "regtest"];
const FORMS: [&str; 10] = ["private", "public", "bare", "wif", "tree", "wild", "multi", "other", "cut", "sum"];
const LABELS: [&str; 4] = ["1", "2", "77", "4294967295"];

fn desc(set: usize, role: &str, form: &str) -> Value {
    json!({"set": set, "role": role, "form": form})
}
pub fn generate(seed: u64, n: usize) -> Vec<Value> {
    (0..n)
        .map(|id| {
            let mut rng = Rng::new(seed, &format!("keys/{id}"));
            let mut ops: Vec<Value> = vec![];
            let net = |rng: &mut Rng| if rng.chance(1, 2) { "regtest" } else { *rng.pick(&NETS) };
            let mut sets = 0;
            let make = |rng: &mut Rng, ops: &mut Vec<Value>, sets: &mut usize| {
                *sets += 1;
                let how = *rng.pick(&["arg", "arg", "default"]);
                let n = if how == "default" { "signet" } else { net(rng) };
                ops.push(json!({"op": "generate", "net": n, "how": how}));
            };
            make(&mut rng, &mut ops, &mut sets);
            let mut created = false;
            for _ in 0..rng.range(3, 9) {
                let how = *rng.pick(&["arg", "env"]);
                let good = rng.chance(3, 5);
                let form = |rng: &mut Rng, good: bool| if good { *rng.pick(&["private", "private", "bare"]) } else { *rng.pick(&FORMS) };
                let role = |rng: &mut Rng, want: &'static str| if rng.chance(5, 6) { want } else { *rng.pick(&["scan", "spend"]) };
                let set = 1 + rng.below(sets);
                match rng.below(9) {
                    0 => make(&mut rng, &mut ops, &mut sets),
                    1 => {
                        let n = net(&mut rng);
                        ops.push(json!({"op": "create", "net": n, "how": how, "height": rng.below(900_000), "birth": rng.next() % 1000}));
                        if !created {
                            sets += 1;
                            created = true;
                        }
                        ops.push(json!({"op": "code2"}));
                    }
                    2 | 3 => {
                        let other = if rng.chance(4, 5) { set } else { 1 + rng.below(sets) };
                        let a = desc(set, role(&mut rng, "scan"), form(&mut rng, good));
                        let public = rng.chance(1, 3);
                        let b = desc(other, role(&mut rng, "spend"), if public { "public" } else { form(&mut rng, good) });
                        let n = net(&mut rng);
                        ops.push(json!({"op": "init", "net": n, "how": how, "a": a, "b": b}));
                    }
                    4 => ops.push(json!({"op": "code"})),
                    5 | 6 => {
                        let a = desc(set, role(&mut rng, "scan"), form(&mut rng, good));
                        ops.push(json!({"op": "label", "a": a, "how": how, "x": *rng.pick(&LABELS)}));
                    }
                    7 => {
                        let a = desc(set, role(&mut rng, "scan"), form(&mut rng, good));
                        ops.push(json!({"op": "scan", "a": a, "how": how, "x": *rng.pick(&["own", "own", "own", "label", "other", "default", "family"])}));
                    }
                    _ => ops.push(json!({"op": *rng.pick(&["label2", "birthday2", "code2"]), "x": *rng.pick(&LABELS)})),
                }
            }
            ops.push(json!({"op": "code"}));
            ops.push(json!({"op": "birthday2"}));
            json!({"id": id, "ops": ops})
        })
        .collect()
}
pub fn scripts(histories: &[Value]) -> Vec<Value> {
    histories
        .iter()
        .enumerate()
        .map(|(id, h)| {
            let mut ops = h["ops"].as_array().unwrap().clone();
            ops.push(json!({"op": "code"}));
            ops.push(json!({"op": "code2"}));
            json!({"id": id, "ops": ops})
        })
        .collect()
}

fn master(x: &Xpriv) -> [u8; 32] {
    x.private_key.secret_bytes()
}
/// Masters of seeds anybody would try.
fn guessable() -> HashSet<[u8; 32]> {
    let mut seeds: Vec<Vec<u8>> = vec![];
    for len in [16, 32, 64] {
        seeds.extend((0..=255).map(|b| vec![b; len]));
        seeds.push((0..len as u8).collect());
        seeds.push((1..=len as u8).collect());
        for i in 0..len {
            let mut s = vec![0; len];
            s[i] = 1;
            seeds.push(s);
        }
    }
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            // little randomness in a full-length seed
            let (mut first, mut last) = (vec![0; 32], vec![0; 32]);
            first[..2].copy_from_slice(&[a, b]);
            last[30..].copy_from_slice(&[a, b]);
            seeds.extend([first, last, [a, b].repeat(16)]);
        }
    }
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    for t in now - 7200..now + 7200 {
        // the clock
        for bytes in [t.to_be_bytes(), t.to_le_bytes()] {
            let (mut first, mut last) = (vec![0; 32], vec![0; 32]);
            first[..8].copy_from_slice(&bytes);
            last[24..].copy_from_slice(&bytes);
            seeds.extend([first, last, bytes.repeat(4)]);
        }
    }
    seeds.iter().map(|s| master(&Xpriv::new_master(Network::Regtest, s).unwrap())).collect()
}
fn steps(p: &DerivationPath) -> Vec<String> {
    p.into_iter()
        .map(|c| match c {
            ChildNumber::Hardened { index } => format!("{index}'"),
            ChildNumber::Normal { index } => index.to_string(),
        })
        .collect()
}
fn path_of(net: &str, role: &str) -> String {
    let coin = if net == "bitcoin" { 0 } else { 1 };
    let r = if role == "scan" { 1 } else { 0 };
    format!("352'/{coin}'/0'/{r}'/0")
}
/// The parts of `tr([origin]key/path)#sum`.
struct Text {
    tr: bool,
    origin: Option<(String, DerivationPath)>,
    key: String,
    path: DerivationPath,
}
fn text(d: &str) -> Option<Text> {
    let d = d.split('#').next()?;
    let (head, rest) = d.split_once('(')?;
    let rest = rest.strip_suffix(')')?;
    let (origin, rest) = match rest.strip_prefix('[') {
        Some(r) => {
            let (o, r) = r.split_once(']')?;
            let (fp, p) = o.split_once('/').unwrap_or((o, ""));
            let p = if p.is_empty() { DerivationPath::master() } else { DerivationPath::from_str(&format!("m/{p}")).ok()? };
            (Some((fp.to_string(), p)), r)
        }
        None => (None, rest),
    };
    let (key, p) = rest.split_once('/').unwrap_or((rest, ""));
    let path = if p.is_empty() { DerivationPath::master() } else { DerivationPath::from_str(&format!("m/{p}")).ok()? };
    Some(Text { tr: head == "tr", origin, key: key.to_string(), path })
}

struct Set {
    net: String,
    x: Xpriv,
    seed: usize,
    /// (role, form) -> text, as printed
    texts: BTreeMap<(String, String), String>,
}
struct World {
    env: Env,
    one: Cli,
    two: Cli,
    sets: Vec<Set>,
    /// masters in the order they appeared; guessable ones are no seeds
    masters: Vec<[u8; 32]>,
    wallet: Option<(usize, String, usize, String, String)>,
    created: Option<usize>,
    labelled: Option<String>,
    node: Option<Arc<Node>>,
    events: Vec<Value>,
}
impl World {
    fn seed(&mut self, bad: &HashSet<[u8; 32]>, x: &Xpriv) -> usize {
        let k = master(x);
        if bad.contains(&k) {
            return 0;
        }
        match self.masters.iter().position(|m| *m == k) {
            Some(i) => i + 1,
            None => {
                self.masters.push(k);
                self.masters.len()
            }
        }
    }
    /// Every key that a wallet may have, with its symbol.
    fn keys(&self) -> Vec<(SecretKey, PublicKey, Value)> {
        let secp = Secp256k1::new();
        let mut out = vec![];
        for s in &self.sets {
            for coin in [0, 1, 2] {
                for account in [0, 1] {
                    for role in [0, 1, 2] {
                        for tail in ["0", "1", "0'"] {
                            let p = DerivationPath::from_str(&format!("m/352'/{coin}'/{account}'/{role}'/{tail}")).unwrap();
                            let k = s.x.derive_priv(&secp, &p).unwrap().private_key;
                            out.push((k, self.env.point(&k), json!({"seed": s.seed, "path": steps(&p)})));
                        }
                    }
                }
            }
        }
        out
    }
    fn code(&self, text: &str) -> Value {
        let unknown = json!({"seed": 0, "path": ["unknown"]});
        let none = json!({"seed": 0, "path": []});
        let family = text.split('1').next().unwrap_or("");
        let Ok(c) = SilentPaymentCode::try_from(text) else {
            return json!({"scan": unknown, "spend": unknown, "label": "", "by": none, "family": family});
        };
        let keys = self.keys();
        let of = |p: &PublicKey| keys.iter().find(|k| k.1 == *p);
        let scan = of(&c.scan).map_or(unknown.clone(), |k| k.2.clone());
        if let Some(k) = of(&c.spend) {
            return json!({"scan": scan, "spend": k.2, "label": "", "by": none, "family": family});
        }
        let secp = Secp256k1::new();
        // only the plain keys: many do not matter here
        let plain: Vec<_> = keys.iter().filter(|k| k.2["path"][2] == "0'" && k.2["path"][4] == "0").collect();
        for by in &plain {
            for m in LABELS {
                let t = label_tweak(&by.0, m.parse().unwrap());
                for s in &plain {
                    if s.1.add_exp_tweak(&secp, &t.into()).ok() == Some(c.spend) {
                        return json!({"scan": scan, "spend": s.2, "label": m, "by": by.2, "family": family});
                    }
                }
            }
        }
        json!({"scan": scan, "spend": unknown, "label": "", "by": none, "family": family})
    }
    /// A descriptor as a user may write it.
    fn desc(&self, d: &Value, rng: &mut Rng) -> Option<String> {
        let s = self.sets.get(d["set"].as_u64()? as usize - 1)?;
        let secp = Secp256k1::new();
        let role = d["role"].as_str()?;
        let form = d["form"].as_str()?;
        let x = &s.x;
        let path = path_of(&s.net, role);
        let other = path_of(&s.net, if role == "scan" { "spend" } else { "scan" });
        let stem = path.rsplit_once('/').unwrap().0.to_string();
        let printed = |f: &str| s.texts[&(role.to_string(), f.to_string())].clone();
        Some(match form {
            "private" | "public" => printed(form),
            "bare" => format!("tr({x}/{path})"),
            "wif" => {
                let k = x.derive_priv(&secp, &DerivationPath::from_str(&format!("m/{path}")).unwrap()).unwrap().private_key;
                format!("tr({})", PrivateKey::new(k, x.network).to_wif())
            }
            "tree" => format!("tr({x}/{path},pk({x}/{other}))"),
            "wild" => format!("tr({x}/{stem}/*)"),
            "multi" => format!("tr({x}/{stem}/<0;1>)"),
            "other" => format!("wpkh({x}/{path})"),
            "cut" => {
                let p = printed("private");
                let n = *rng.pick(&[1, 4, 10, 20]);
                p[..p.len() - n].to_string()
            }
            _ => {
                let p = printed("private");
                let last = if p.ends_with('q') { 'p' } else { 'q' };
                format!("{}{last}", &p[..p.len() - 1])
            }
        })
    }
    /// The texts of a set whose master is all that is known.
    fn texts(x: &Xpriv, net: &str) -> BTreeMap<(String, String), String> {
        let secp = Secp256k1::new();
        let fp = x.fingerprint(&secp);
        let mut t = BTreeMap::new();
        for role in ["scan", "spend"] {
            let path = path_of(net, role);
            let stem = path.rsplit_once('/').unwrap().0;
            let parent = x.derive_priv(&secp, &DerivationPath::from_str(&format!("m/{stem}")).unwrap()).unwrap();
            t.insert((role.into(), "private".into()), with_sum(&format!("tr([{fp}]{x}/{path})")));
            t.insert((role.into(), "public".into()), with_sum(&format!("tr([{fp}/{stem}]{}/0)", Xpub::from_priv(&secp, &parent))));
        }
        t
    }
}
/// BIP380 checksum.
fn with_sum(d: &str) -> String {
    const IN: &str = "0123456789()[],'/*abcdefgh@:$%{}IJKLMNOPQRSTUVWXYZ&+-.;<=>?!^_|~ijklmnopqrstuvwxyzABCDEFGH`#\"\\ ";
    const OUT: &[u8] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
    let step = |c: u64, v: u64| {
        let top = c >> 35;
        let mut c = ((c & 0x7ffffffff) << 5) ^ v;
        for (i, g) in [0xf5dee51989u64, 0xa9fdca3312, 0x1bab10e32d, 0x3706b1677a, 0x644d626ffd].iter().enumerate() {
            if top >> i & 1 == 1 {
                c ^= g;
            }
        }
        c
    };
    let (mut c, mut cls, mut n) = (1, 0, 0);
    for ch in d.chars() {
        let p = IN.find(ch).unwrap() as u64;
        c = step(c, p & 31);
        cls = cls * 3 + (p >> 5);
        n += 1;
        if n == 3 {
            c = step(c, cls);
            cls = 0;
            n = 0;
        }
    }
    if n > 0 {
        c = step(c, cls);
    }
    for _ in 0..8 {
        c = step(c, 0);
    }
    c ^= 1;
    let sum: String = (0..8).map(|i| OUT[(c >> (5 * (7 - i)) & 31) as usize] as char).collect();
    format!("{d}#{sum}")
}

pub fn run_all(seed: u64, scn: &str, report: &str) -> Vec<Value> {
    let bad = guessable();
    let none = format!("{report}.none");
    let scns = hcore::read_lines(scn);
    std::fs::write(&none, scns.iter().map(|s| format!("{}\n", json!({"id": s["id"]}))).collect::<String>()).unwrap();
    let out = Mutex::new((vec![], vec![]));
    hcore::each_on(16, scn, &none, report, |s, _, r| {
        r.checked -= 1;
        let (t, m) = run(seed, s, &bad, r);
        let mut out = out.lock().unwrap();
        out.0.push(t);
        out.1.extend(m);
    });
    std::fs::remove_file(none).unwrap();
    let (mut t, m) = out.into_inner().unwrap();
    t.sort_by_key(|x| x["id"].as_u64());
    let id = t.len();
    let all: Vec<String> = m.iter().map(|k| hcore::hex(k)).collect();
    t.push(json!({"id": id, "events": [{"ev": "all", "masters": all}]}));
    t
}
fn run(seed: u64, s: &Value, bad: &HashSet<[u8; 32]>, r: &mut Report) -> (Value, Vec<[u8; 32]>) {
    let salt = format!("keys/{}", s["id"]);
    let dir = std::env::temp_dir().join(format!("hkeys-{}-{}", std::process::id(), s["id"]));
    let cli = |prog: u64| {
        let dir = dir.join(prog.to_string());
        std::fs::create_dir_all(&dir).unwrap();
        Cli { prog, dir, env: vec![] }
    };
    let (one, two) = (cli(1), cli(2));
    let mut w = World {
        env: Env::new(seed, &salt),
        one,
        two,
        sets: vec![],
        masters: vec![],
        wallet: None,
        created: None,
        labelled: None,
        node: None,
        events: vec![],
    };
    r.checked += 1;
    let mut rng = Rng::new(seed, &salt);
    for o in s["ops"].as_array().unwrap() {
        step(&mut w, o, bad, &mut rng, r);
    }
    if let Some(n) = w.node.take() {
        n.stop();
    }
    std::fs::remove_dir_all(&dir).unwrap();
    (json!({"id": s["id"], "events": w.events, "case": s}), w.masters)
}
fn step(w: &mut World, o: &Value, bad: &HashSet<[u8; 32]>, rng: &mut Rng, r: &mut Report) {
    let op = o["op"].as_str().unwrap();
    let net = o["net"].as_str().unwrap_or("");
    let how = o["how"].as_str().unwrap_or("arg");
    let mut args: Vec<String> = vec![];
    let mut env: Vec<(&'static str, String)> = vec![];
    let mut give = |flag: &str, var: &'static str, v: String| {
        if how == "env" {
            env.push((var, v));
        } else {
            args.extend([flag.to_string(), v]);
        }
    };
    let two = matches!(op, "create" | "code2" | "label2" | "birthday2");
    let mut e = json!({"ev": op});
    match op {
        "generate" => {
            e["net"] = json!(net);
            args.push("generate".into());
            if how != "default" {
                args.extend(["--network".into(), net.into()]);
            }
        }
        "create" => {
            let hash = hcore::hex(&[o["birth"].as_u64().unwrap_or(7) as u8; 32]);
            let height = o["height"].as_u64().unwrap_or(0).to_string();
            e["net"] = json!(net);
            e["height"] = json!(o["height"].as_u64().unwrap_or(0));
            e["hash"] = json!(hash);
            args = ["create", "--network", net, "--birthday-height", &height, "--birthday-hash", &hash].map(String::from).into();
        }
        "init" => {
            let (Some(a), Some(b)) = (w.desc(&o["a"], rng), w.desc(&o["b"], rng)) else { return };
            e["net"] = json!(net);
            e["ds"] = o["a"].clone();
            e["dp"] = o["b"].clone();
            give("--scan", "SCAN_DESCRIPTOR", a);
            give("--spend", "SPEND_DESCRIPTOR", b);
            // signet is what it is when nothing is said
            if net != "signet" || rng.chance(1, 2) {
                give("--network", "NETWORK", net.into());
            }
            args.insert(0, "init".into());
        }
        "code" => args.push("code".into()),
        "label" => {
            let Some(a) = w.desc(&o["a"], rng) else { return };
            e["ds"] = o["a"].clone();
            e["x"] = o["x"].clone();
            give("--scan", "SCAN_DESCRIPTOR", a);
            args.splice(0..0, ["code".into(), "--label".into(), o["x"].as_str().unwrap().into()]);
        }
        "scan" => {
            let Some(a) = w.desc(&o["a"], rng) else { return };
            let Some((sc, sr, sp, pr, wnet)) = w.wallet.clone() else { return };
            if wnet != "regtest" {
                return;
            }
            let point = |s: usize, role: &str| {
                let s = &w.sets[s - 1];
                let p = DerivationPath::from_str(&format!("m/{}", path_of(&s.net, role))).unwrap();
                w.env.point(&s.x.derive_priv(&Secp256k1::new(), &p).unwrap().private_key)
            };
            let code = |a, b, n| SilentPaymentCode::new_v0(a, b, n).to_string();
            let (scan, spend) = (point(sc, &sr), point(sp, &pr));
            let c = match o["x"].as_str().unwrap() {
                "own" => Some(code(scan, spend, Network::Regtest)),
                "family" => Some(code(scan, spend, Network::Signet)),
                "label" => w.labelled.clone(),
                // somebody else's
                "other" => Some(code(scan, point(1 + rng.below(w.sets.len()), if pr == "scan" { "spend" } else { "scan" }), Network::Regtest)),
                _ => None,
            };
            // when none is given the program takes one of its own: not the wallet's
            e["code"] = w.code(c.as_deref().unwrap_or("sprt1"));
            e["ds"] = o["a"].clone();
            give("--scan", "SCAN_DESCRIPTOR", a);
            if let Some(c) = c {
                args.extend(["--code".into(), c]);
            }
            let node = w.node.get_or_insert_with(|| {
                let s = small();
                let u = Uni::new(&w.env, &s, w.env.base("nobody"), w.env.base("nobody2"));
                let node = Node::start(&w.env, &u, &s, Network::Regtest);
                node.go(2);
                node
            });
            args.extend(["--url".into(), node.url()]);
            args.insert(0, "scan".into());
        }
        "code2" => args.push("code".into()),
        "label2" => {
            e["x"] = o["x"].clone();
            args = vec!["code".into(), "--label".into(), o["x"].as_str().unwrap().into()];
        }
        _ => args.push("birthday".into()),
    }
    let cli = if two { &mut w.two } else { &mut w.one };
    cli.env = env;
    let bytes = |c: &Cli| std::fs::read(c.file()).ok();
    let held = bytes(cli);
    let res = cli.run(&args, Limit::None, |_| false);
    let same = bytes(cli) == held;
    let (ans, out, got) = match res {
        Ended::Ok(x) => ("ok", x, String::new()),
        Ended::Failed(x, e) => (if e.contains("panicked at") { "panic" } else { "no" }, x, e.chars().take(300).collect()),
        Ended::Killed(x) => ("killed", x, String::new()),
        Ended::Hung => ("hung", String::new(), String::new()),
    };
    r.count(&format!("{op} answered {ans}"));
    e["ans"] = json!(ans);
    e["same"] = json!(same);
    e["got"] = json!(got);
    let v = Cli::json(&out).into_iter().next().unwrap_or(json!({}));
    match op {
        "generate" if ans == "ok" => made(w, &mut e, &v, net, bad, r),
        "create" if ans == "ok" => {
            let t = v["tr_xprv"].as_str().and_then(text);
            let x = t.as_ref().and_then(|t| Xpriv::from_str(&t.key).ok());
            match (t, x) {
                (Some(t), Some(x)) => {
                    let fp = x.fingerprint(&Secp256k1::new()).to_string();
                    let fits = t.tr && x.depth == 0 && t.origin.as_ref().is_some_and(|o| o.0 == fp && o.1.is_empty());
                    let seed = if fits { w.seed(bad, &x) } else { 0 };
                    e["key"] = json!({"seed": seed, "path": steps(&t.path)});
                    e["main"] = json!(x.network.is_mainnet());
                    w.sets.push(Set { net: net.into(), x, seed, texts: World::texts(&x, net) });
                    w.created = Some(w.sets.len());
                }
                _ => {
                    e["key"] = json!({"seed": 0, "path": []});
                    e["main"] = json!(false);
                }
            }
            r.count(&format!("wallets created for {net}"));
        }
        "init" if ans == "ok" => {
            let at = |d: &Value| (d["set"].as_u64().unwrap() as usize, d["role"].as_str().unwrap().to_string());
            let ((sc, sr), (sp, pr)) = (at(&o["a"]), at(&o["b"]));
            w.wallet = Some((sc, sr, sp, pr, net.to_string()));
        }
        "code" | "code2" | "label" | "label2" => {
            let c = v["silent_payment_code"].as_str().or(v["labelled_silent_payment_code"].as_str()).unwrap_or("");
            e["code"] = w.code(c);
            if op == "label" && ans == "ok" {
                w.labelled = Some(c.to_string());
            }
        }
        "birthday2" => {
            e["height"] = json!(v["height"].as_u64().unwrap_or(u32::MAX as u64 >> 1));
            e["hash"] = json!(v["hash"].as_str().unwrap_or(""));
        }
        _ => {}
    }
    w.events.push(e);
    if op == "init" && ans == "ok" {
        step(w, &json!({"op": "code"}), bad, rng, r);
    }
}
/// What generate printed.
fn made(w: &mut World, e: &mut Value, v: &Value, net: &str, bad: &HashSet<[u8; 32]>, r: &mut Report) {
    let secp = Secp256k1::new();
    let mut parts = vec![];
    let mut texts = BTreeMap::new();
    let mut x0: Option<Xpriv> = None;
    for kind in ["private", "public"] {
        for role in ["scan", "spend"] {
            let d = v[format!("{kind}_{role}_descriptor")].as_str().unwrap_or("");
            texts.insert((role.to_string(), kind.to_string()), d.to_string());
            let unknown = json!({"role": role, "kind": kind, "secret": false, "tr": false, "main": false, "key": {"seed": 0, "path": []}});
            let Some(t) = text(d) else {
                parts.push(unknown);
                continue;
            };
            let mut p = unknown;
            p["tr"] = json!(t.tr);
            if let Ok(x) = Xpriv::from_str(&t.key) {
                let fp = x.fingerprint(&secp).to_string();
                let fits = x.depth == 0 && t.origin.as_ref().is_none_or(|o| o.0 == fp && o.1.is_empty());
                let seed = if fits { w.seed(bad, &x) } else { 0 };
                p["secret"] = json!(true);
                p["main"] = json!(x.network.is_mainnet());
                p["key"] = json!({"seed": seed, "path": steps(&t.path)});
                x0 = x0.or(Some(x));
            } else if let (Ok(x), Some(m)) = (Xpub::from_str(&t.key), x0) {
                let (fp, origin) = t.origin.unwrap_or((String::new(), DerivationPath::master()));
                let full = origin.extend(&t.path);
                let want = m.derive_priv(&secp, &full).unwrap().private_key.public_key(&secp);
                let have = x.derive_pub(&secp, &t.path).ok().map(|k| k.public_key);
                let seed = if fp == m.fingerprint(&secp).to_string() && have == Some(want) { w.seed(bad, &m) } else { 0 };
                p["main"] = json!(x.network.is_mainnet());
                p["key"] = json!({"seed": seed, "path": steps(&full)});
            }
            parts.push(p);
        }
    }
    let seed = parts[0]["key"]["seed"].as_u64().unwrap() as usize;
    e["parts"] = json!(parts);
    if let Some(x) = x0 {
        w.sets.push(Set { net: net.into(), x, seed, texts });
    }
    r.count(&format!("keys generated for {net}"));
}
