//! C11, C12: DLEQ proofs against SPDleq.tla.
use bitcoin::secp256k1::PublicKey;
use dleq::{dleq_generate_proof, dleq_verify_proof};
use hcore::serde_json::{json, Value};
use hcore::{guard, hex, read_lines, Env, Report, Rng};

const ORDER: &str = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";

fn poly(r: &mut Rng, names: &[&str]) -> Value {
    match r.below(6) {
        0 => json!([{"c": *r.pick(&[1, -1, 2, -2, 3, 15, 16, 31]), "as": []}]),
        1 => json!([{"c": 1, "as": [r.pick(names)]}, {"c": *r.pick(&[1, -1]), "as": []}]),
        2 => json!([{"c": *r.pick(&[1, -1]), "as": [r.pick(names), r.pick(names)]}]),
        _ => json!([{"c": *r.pick(&[1, -1]), "as": [r.pick(names)]}]),
    }
}

fn generate(seed: u64, n: usize) -> Vec<Value> {
    let pts = ["A", "B", "C", "G", "-A", "-B", "-C", "-G", "2A", "2B", "2C", "2G", "A+G", "C+B", "x1", "x2"];
    let es = ["-e", "0", "1", "s", "e+d", "x3", "big", "order"];
    let ss = ["-s", "0", "1", "e", "s+d", "x3", "big", "order"];
    (0..n)
        .map(|id| {
            let mut r = Rng::new(seed, &format!("dleq/{id}"));
            let a = poly(&mut r, &["a", "b"]);
            let b = match r.below(8) {
                0 => json!([{"c": 1, "as": []}]),
                1 => a.clone(),
                _ => poly(&mut r, &["b", "b2"]),
            };
            let g = match r.below(6) {
                0 | 1 | 2 => json!([{"c": 1, "as": []}]),
                3 => b.clone(),
                _ => poly(&mut r, &["g", "b"]),
            };
            let m = *r.pick(&["", "", "zero", "m1", "m1", "ones"]);
            let mut alter = vec![];
            let same = || json!({"A": "A", "B": "B", "C": "C", "G": "G", "m": m, "e": "e", "s": "s"});
            let field = |r: &mut Rng, v: &mut Value| match r.below(7) {
                0 | 1 | 2 | 3 => {
                    let f = *r.pick(&["A", "B", "C", "G"]);
                    v[f] = json!(r.pick(&pts))
                }
                4 => v["m"] = json!(r.pick(&["", "zero", "m1", "m2", "ones"])),
                5 => v["e"] = json!(r.pick(&es)),
                _ => v["s"] = json!(r.pick(&ss)),
            };
            for f in ["A", "B", "C", "G"] {
                let mut v = same();
                v[f] = json!(r.pick(&pts));
                alter.push(v);
            }
            for _ in 0..6 {
                let mut v = same();
                for _ in 0..r.range(1, 3) {
                    field(&mut r, &mut v);
                }
                alter.push(v);
            }
            // exchanged arguments
            for (x, y) in [("A", "B"), ("A", "C"), ("B", "C"), ("A", "G"), ("B", "G"), ("C", "G")] {
                if r.chance(1, 2) {
                    let mut v = same();
                    v[x] = json!(y);
                    v[y] = json!(x);
                    alter.push(v);
                }
            }
            if r.chance(1, 2) {
                alter.push(json!({"A": "C", "B": "G", "C": "A", "G": "B", "m": m, "e": "e", "s": "s"}));
            }
            alter.push(same());
            let mut over: Vec<&str> = vec!["A", "B", "C", "G", "R1", "R2"];
            if !m.is_empty() {
                over.push("m");
            }
            match r.below(6) {
                0 | 1 | 2 => (),
                3 => {
                    let i = r.below(over.len());
                    over.remove(i);
                }
                4 => {
                    let i = r.below(over.len() - 1);
                    over.swap(i, i + 1)
                }
                _ => {
                    let i = r.below(over.len());
                    let x = over[i];
                    over.insert(i, x)
                }
            }
            let forge = if r.chance(2, 3) {
                let honest = r.chance(1, 3);
                let k1 = json!([{"c": 1, "as": ["k1"]}]);
                json!({"with": r.range(1, 2), "c": if honest {a.clone()} else {poly(&mut r, &["c", "a"])}, "k1": k1,
                       "k2": if honest {k1.clone()} else {json!([{"c": 1, "as": ["k2"]}])}, "over": over})
            } else {
                json!({"with": 0})
            };
            let flips: Vec<usize> = (0..8).map(|_| r.below(512)).collect();
            json!({"id": id, "a": a, "B": b, "G": g, "r": *r.pick(&["r1", "r2", "zero", "ones"]), "m": m, "alter": alter, "forge": forge, "flips": flips})
        })
        .collect()
}

fn run(prop: &str, seed: u64, scn: &str, exp: &str, out: &str) {
    let exps: std::collections::HashMap<u64, Value> =
        read_lines(exp).into_iter().map(|e| (e["id"].as_u64().unwrap(), e)).collect();
    let mut rep = Report::default();
    let r = &mut rep;
    for s in read_lines(scn) {
        let id = s["id"].as_u64().unwrap();
        let e = &exps[&id];
        let env = Env::new(seed, &format!("dleq/{id}"));
        env.blobs.borrow_mut().insert("zero".into(), vec![0; 32]);
        env.blobs.borrow_mut().insert("ones".into(), vec![0xff; 32]);
        let b32 = |v: &Value| -> [u8; 32] { env.bytes(v.as_str().unwrap()).try_into().unwrap() };
        let pk = |v: &Value| PublicKey::from_slice(&env.bytes(v.as_str().unwrap())).unwrap();
        let msg = |m: &Value| -> Option<[u8; 32]> {
            let m = m.as_str().unwrap();
            (!m.is_empty()).then(|| env.blob(m, 32).try_into().unwrap())
        };
        let a = bitcoin::secp256k1::SecretKey::from_slice(&b32(&e["a"])).unwrap();
        let (pa, pb, pc, pg) = (pk(&e["A"]), pk(&e["B"]), pk(&e["C"]), pk(&e["G"]));
        let m = msg(&s["m"]);
        let rand: [u8; 32] = env.blob(s["r"].as_str().unwrap(), 32).try_into().unwrap();
        let join = |x: [u8; 32], y: [u8; 32]| -> [u8; 64] { [x, y].concat().try_into().unwrap() };
        let proof = join(b32(&e["e"]), b32(&e["s"]));
        assert!(e["honest"].as_bool().unwrap());
        r.checked += 1;
        if prop == "C11" {
            for _ in 0..2 {
                let got = guard(|| dleq_generate_proof(a, pb, &rand, pg, m.as_ref()).map(|p| hex(&p)).map_err(|e| e.to_string()));
                r.eq(&s, "generated proof", &Ok(Ok(hex(&proof))), &got);
            }
            r.count(if m.is_some() { "proofs with message" } else { "proofs without message" });
            let got = guard(|| dleq_verify_proof(pa, pb, pc, &proof, pg, m.as_ref()).map_err(|e| e.to_string()));
            r.eq(&s, "honest proof is accepted", &Ok(Ok(true)), &got);
        } else {
            let mut verdict = |r: &mut Report, what: &str, want: &str, p: [PublicKey; 4], proof: [u8; 64], m: Option<[u8; 32]>| {
                let got = guard(|| dleq_verify_proof(p[0], p[1], p[2], &proof, p[3], m.as_ref()).map_err(|e| e.to_string()));
                let got = match got {
                    Ok(Ok(true)) => "yes".to_string(),
                    Ok(_) => "no".to_string(),
                    Err(p) => p,
                };
                r.count(&format!("{what} {want}"));
                r.eq(&json!({"scenario": s, "points": format!("{p:?}"), "proof": hex(&proof)}), &format!("verification of {what}"), &want.to_string(), &got);
            };
            for (i, v) in s["alter"].as_array().unwrap().iter().enumerate() {
                let want = e["verdicts"][i].as_str().unwrap();
                if want == "skip" {
                    continue;
                }
                let p = &e["points"][i];
                let num = |v: &Value| -> [u8; 32] {
                    match v.as_str().unwrap() {
                        "big" => [0xff; 32],
                        "order" => hcore::unhex(ORDER).try_into().unwrap(),
                        _ => b32(v),
                    }
                };
                let n = &e["numbers"][i];
                verdict(r, "altered statements", want, [pk(&p[0]), pk(&p[1]), pk(&p[2]), pk(&p[3])], join(num(&n[0]), num(&n[1])), msg(&v["m"]));
            }
            for f in s["flips"].as_array().unwrap() {
                let f = f.as_u64().unwrap() as usize;
                let mut q = proof;
                q[f / 8] ^= 1 << (f % 8);
                verdict(r, "flipped bits", "no", [pa, pb, pc, pg], q, m);
            }
            let fg = &e["forged"];
            if fg["ok"] != "skip" {
                verdict(r, "assembled proofs", fg["ok"].as_str().unwrap(), [pa, pb, pk(&fg["C"]), pg], join(b32(&fg["e"]), b32(&fg["s"])), m);
            }
        }
        if r.samples.len() < 2 {
            r.samples.push(s.clone());
        }
    }
    rep.finish(out);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "gen" => {
            let v = generate(a[3].parse().unwrap(), a[4].parse().unwrap());
            std::fs::write(&a[5], v.iter().map(|x| format!("{x}\n")).collect::<String>()).unwrap();
        }
        "run" => run(&a[2], a[3].parse().unwrap(), &a[4], &a[5], &a[6]),
        x => panic!("unknown command {x}"),
    }
}
