//! C06: silent payment codes as strings. The strings are built here by an independent encoder (so
//! that invalid ones can be produced); what parsing must give is decided by SPCode.tla.
use bdk_sp::encoding::SilentPaymentCode;
use bitcoin::secp256k1::PublicKey;
use bitcoin::Network;
use hcore::serde_json::{json, Value};
use hcore::{guard, read_lines, Env, Report, Rng};

const CHARS: &[u8] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
fn polymod(v: &[u8]) -> u32 {
    let mut chk = 1u32;
    for x in v {
        let top = chk >> 25;
        chk = (chk & 0x1ffffff) << 5 ^ *x as u32;
        for (i, g) in [0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3u32].iter().enumerate() {
            if top >> i & 1 == 1 {
                chk ^= g;
            }
        }
    }
    chk
}
fn fives(bytes: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for b in bytes {
        acc = (acc << 8 | *b as u32) & 0xffff;
        n += 8;
        while n >= 5 {
            n -= 5;
            out.push((acc >> n & 31) as u8);
        }
    }
    if n > 0 {
        out.push((acc << (5 - n) & 31) as u8);
    }
    out
}
fn build(hrp: &[u8], data: &[u8], konst: u32) -> Vec<u8> {
    let l: Vec<u8> = hrp.iter().map(|c| c.to_ascii_lowercase()).collect();
    let mut v: Vec<u8> = l.iter().map(|c| c >> 5).collect();
    v.push(0);
    v.extend(l.iter().map(|c| c & 31));
    v.extend(data);
    v.extend([0; 6]);
    let p = polymod(&v) ^ konst;
    let mut s = hrp.to_vec();
    s.push(b'1');
    s.extend(data.iter().map(|d| CHARS[*d as usize]));
    s.extend((0..6).map(|i| CHARS[(p >> (5 * (5 - i)) & 31) as usize]));
    s
}
const M: u32 = 0x2bc830a3;

/// The bech32m string of a code.
pub fn string(hrp: &[u8], version: u8, payload: &[u8]) -> String {
    let mut d = vec![version];
    d.extend(fives(payload));
    String::from_utf8(build(hrp, &d, M)).unwrap()
}
fn keypair(rng: &mut Rng, env: &Env) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..2 {
        let n = format!("k{}", rng.next());
        let mut k = env.base(&n);
        if rng.chance(1, 2) {
            k = k.negate();
        }
        v.extend(env.point(&k).serialize());
    }
    v
}

pub fn generate(seed: u64, n: usize) -> Vec<Value> {
    let mut out = vec![];
    for id in 0..n {
        let mut rng = Rng::new(seed, &format!("C06/{id}"));
        let env = Env::new(seed, &format!("C06/{id}"));
        let keys = keypair(&mut rng, &env);
        let fams = [("main", &b"sp"[..]), ("test", b"tsp"), ("regtest", b"sprt")];
        let (fam, hrp) = *rng.pick(&fams);
        if id % 8 == 0 {
            let nets: &[&str] = match fam {
                "main" => &["bitcoin"],
                "test" => &["testnet", "testnet4", "signet"],
                _ => &["regtest"],
            };
            out.push(json!({"id": id, "t": "enc", "family": fam, "net": rng.pick(nets), "version": 0, "payload": keys}));
            continue;
        }
        let v0 = |keys: &[u8]| {
            let mut d = vec![0u8];
            d.extend(fives(keys));
            d
        };
        let (what, s): (&str, Vec<u8>) = match id % 16 {
            1 => ("valid", build(hrp, &v0(&keys), M)),
            2 => ("upper case", build(hrp, &v0(&keys), M).to_ascii_uppercase()),
            3 => {
                let mut s = build(hrp, &v0(&keys), M);
                if rng.chance(1, 2) {
                    s.make_ascii_uppercase();
                    let i = rng.below(s.len());
                    s[i].make_ascii_lowercase();
                } else {
                    for _ in 0..rng.range(1, 3) {
                        let i = rng.below(s.len());
                        s[i].make_ascii_uppercase();
                    }
                    if rng.chance(1, 4) {
                        // only the prefix
                        s.make_ascii_lowercase();
                        s[..hrp.len()].make_ascii_uppercase();
                    }
                }
                ("mixed case", s)
            }
            4 | 5 => {
                // versions and payload lengths
                let ver = *rng.pick(&[0u8, 0, 1, 2, 15, 16, 29, 30, 30, 31, 31]);
                let len = *rng.pick(&[66usize, 66, 66, 67, 67, 65, 64, 99, 68, 34, 33, 32, 1, 0, 132, 400, 625, 630, 631, 632, 633]);
                let mut p = keys.clone();
                while p.len() < len {
                    p.push(rng.next() as u8);
                }
                p.truncate(len);
                let mut d = vec![ver];
                d.extend(fives(&p));
                ("version and length", build(hrp, &d, M))
            }
            6 => {
                // regrouping leftovers
                let ver = *rng.pick(&[0u8, 0, 0, 1, 30]);
                let mut f = fives(&keys);
                match rng.below(4) {
                    0 => *f.last_mut().unwrap() |= rng.range(1, 3) as u8,
                    1 => f.push(0),
                    2 => f.push(rng.below(32) as u8),
                    _ => {
                        f.pop();
                    }
                }
                let mut d = vec![ver];
                d.extend(f);
                ("padding", build(hrp, &d, M))
            }
            7 => {
                let h: &[u8] = rng.pick(&[&b"s"[..], b"p", b"spp", b"tsp1", b"sp1", b"bc", b"tb", b"bcrt", b"sprt1", b"spr", b"ts", b"psp", b"1", b"s1p", b"tsprt", b"lnbc", b"xsp"]);
                ("prefix", build(h, &v0(&keys), M))
            }
            9 => {
                let konst = *rng.pick(&[1u32, 0, M ^ 1, M ^ (1 << 29), 0x3fffffff, rng.clone().next() as u32 & 0x3fffffff]);
                ("checksum constant", build(hrp, &v0(&keys), konst))
            }
            10 | 11 => {
                let mut s = build(hrp, &v0(&keys), M);
                let n = rng.range(1, 3);
                for _ in 0..n {
                    let i = rng.range(hrp.len() + 1, s.len() - 1);
                    s[i] = *rng.pick(CHARS);
                }
                ("substituted characters", s)
            }
            12 => {
                let mut s = build(hrp, &v0(&keys), M);
                match rng.below(5) {
                    0 => {
                        let i = rng.below(s.len());
                        s.remove(i);
                    }
                    1 => {
                        let i = rng.below(s.len() + 1);
                        let c = *rng.pick(CHARS);
                        s.insert(i, c);
                    }
                    2 => {
                        let i = rng.below(s.len() - 1);
                        s.swap(i, i + 1);
                    }
                    3 => {
                        let n = rng.below(s.len());
                        s.truncate(n);
                    }
                    _ => {
                        let i = rng.below(s.len());
                        s[i] = *rng.pick(&[b'1', b'b', b'i', b'o', b' ', 0x7f, 0x1f, b'!', b'~', b'\n']);
                    }
                }
                ("edited", s)
            }
            13 => {
                // bytes that are no keys
                let mut k = keys.clone();
                let at = 33 * rng.below(2);
                match rng.below(5) {
                    0 => k[at] = *rng.pick(&[0u8, 1, 4, 5, 6, 7, 255]),
                    1 => k[at + 1..at + 33].copy_from_slice(&env.offcurve("x")),
                    2 => k[at + 1..at + 33].fill(0),
                    3 => k[at + 1..at + 33].fill(0xff),
                    _ => k[at] ^= 1, // the other parity is a key as well
                }
                let mut d = vec![*rng.pick(&[0u8, 0, 1])];
                d.extend(fives(&k));
                ("invalid keys", build(hrp, &d, M))
            }
            14 => {
                // degenerate strings
                let s = match rng.below(8) {
                    0 => vec![],
                    1 => build(hrp, &[], M),
                    2 => build(hrp, &[0], M),
                    3 => build(hrp, &[rng.below(32) as u8], M),
                    4 => b"1".to_vec(),
                    5 => hrp.to_vec(),
                    6 => build(b"", &v0(&keys), M),
                    _ => "sp1qqτ🎉".as_bytes().to_vec(),
                };
                ("degenerate", s)
            }
            _ => {
                let n = rng.below(150);
                let mut s: Vec<u8> = (0..n)
                    .map(|_| if rng.chance(9, 10) { *rng.pick(CHARS) } else { 32 + rng.below(96) as u8 })
                    .collect();
                if rng.chance(3, 4) {
                    let mut h = hrp.to_vec();
                    h.push(b'1');
                    h.extend(s);
                    s = h;
                }
                ("random", s)
            }
        };
        out.push(json!({"id": id, "t": "dec", "what": what, "s": s}));
    }
    out
}

fn family(n: Network) -> &'static str {
    match n {
        Network::Bitcoin => "main",
        Network::Regtest => "regtest",
        _ => "test",
    }
}
fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

pub fn run(scn: &str, exp: &str, out: &str) {
    let exps: std::collections::HashMap<u64, Value> =
        read_lines(exp).into_iter().map(|e| (e["id"].as_u64().unwrap(), e)).collect();
    let mut r = Report::default();
    for s in read_lines(scn) {
        let e = &exps[&s["id"].as_u64().unwrap()];
        r.checked += 1;
        if s["t"] == "enc" {
            let k = bytes(&s["payload"]);
            let net = match s["net"].as_str().unwrap() {
                "bitcoin" => Network::Bitcoin,
                "testnet" => Network::Testnet,
                "testnet4" => Network::Testnet4,
                "signet" => Network::Signet,
                _ => Network::Regtest,
            };
            let code = SilentPaymentCode::new_v0(
                PublicKey::from_slice(&k[..33]).unwrap(),
                PublicKey::from_slice(&k[33..]).unwrap(),
                net,
            );
            let want = String::from_utf8(bytes(&e["s"])).unwrap();
            r.count("encoded codes");
            r.eq(&s, "encoding of a code", &Ok(want.clone()), &guard(|| code.to_string()));
            match guard(|| SilentPaymentCode::try_from(want.as_str())) {
                Ok(Ok(p)) => {
                    r.check(&s, "parsed keys and version equal the encoded ones", p.scan == code.scan && p.spend == code.spend && p.version() == code.version());
                    r.eq(&s, "parsed network family", &family(net), &family(p.network));
                    r.eq(&s, "parsed code encodes to the same text", &want, &p.to_string());
                }
                x => r.bad(&s, "parsing an encoded code", "the code".into(), format!("{x:?}")),
            }
        } else {
            let raw = bytes(&s["s"]);
            let text = String::from_utf8(raw).unwrap();
            let k = bytes(&e["keys"]);
            let ok = e["ok"].as_bool().unwrap();
            let keys = ok.then(|| (PublicKey::from_slice(&k[..33]), PublicKey::from_slice(&k[33..])));
            let want = match keys {
                Some((Ok(a), Ok(b))) => Some((a, b, e["version"].as_u64().unwrap() as u8, e["family"].as_str().unwrap().to_string())),
                _ => None,
            };
            r.count(&format!("{} {}", if want.is_some() { "valid:" } else { "invalid:" }, s["what"].as_str().unwrap()));
            match guard(|| SilentPaymentCode::try_from(text.as_str())) {
                Ok(res) => {
                    let got = res.as_ref().ok().map(|c| (c.scan, c.spend, c.version(), family(c.network).to_string()));
                    if r.eq(&s, "result of parsing", &want, &got) {
                        if let (Ok(c), 0) = (&res, e["version"].as_u64().unwrap()) {
                            r.eq(&s, "a parsed code encodes to the text it came from", &Ok(text.to_lowercase()), &guard(|| c.to_string()));
                        }
                        if let Err(err) = &res {
                            r.check(&s, "parse errors can be displayed", guard(|| err.to_string().len()).is_ok());
                        }
                    }
                }
                Err(p) => r.bad(&s, "parsing never panics", "a result".into(), p),
            }
        }
        if r.samples.len() < 2 {
            r.samples.push(s.clone());
        }
    }
    r.finish(out);
}
