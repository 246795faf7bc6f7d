mod v1;
mod v2;
use hcore::serde_json::Value;
use hcore::{each, guard, Report, Rng};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "gen" => {
            let (seed, n) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let v = match a[2].as_str() {
                "C13" | "C14" | "mc13" | "mc14" => v2::generate(&a[2], seed, n),
                "C15" | "mc15" => v1::generate(&a[2], seed, n),
                x => panic!("unknown {x}"),
            };
            std::fs::write(&a[5], v.iter().map(|x| format!("{x}\n")).collect::<String>()).unwrap();
        }
        "run" => {
            let seed: u64 = a[3].parse().unwrap();
            match a[2].as_str() {
                p @ ("C13" | "C14") => each(&a[4], &a[5], &a[6], |s, e, r| v2::run(p, seed, s, e, r)),
                "C15" => each(&a[4], &a[5], &a[6], |s, e, r| v1::run(seed, s, e, r)),
                x => panic!("unknown {x}"),
            }
        }
        x => panic!("unknown command {x}"),
    }
}

/// What was stored may come back damaged: it is refused, or read as something else, without a panic.
pub fn damaged<T: serde::Serialize + serde::de::DeserializeOwned>(r: &mut Report, s: &Value, rng: &mut Rng, c: &T) {
    let (json, mut b) = (hcore::serde_json::to_string(c).unwrap(), bincode::serialize(c).unwrap());
    let res = match rng.below(3) {
        0 => {
            r.count("damaged change sets (JSON)");
            // hex digits, numbers and names
            let mut v: Vec<u8> = json.into_bytes();
            for _ in 0..rng.range(1, 3) {
                let i = rng.below(v.len());
                match rng.below(3) {
                    0 => {
                        v.remove(i);
                        if v.is_empty() {
                            break;
                        }
                    }
                    1 => v[i] = *rng.pick(b"09afz-,]}\"x"),
                    _ => v.insert(i, *rng.pick(b"09,[1f")),
                }
            }
            guard(|| hcore::serde_json::from_slice::<T>(&v).is_err()).map(|_| true)
        }
        1 => {
            r.count("damaged change sets (cut short)");
            let n = rng.below(b.len());
            guard(|| bincode::deserialize::<T>(&b[..n]).is_err())
        }
        _ => {
            r.count("damaged change sets (binary)");
            for _ in 0..rng.range(1, 3) {
                let i = rng.below(b.len());
                b[i] = *rng.pick(&[0u8, 1, 0x7f, 0x80, 0xff, b[i] ^ 1]);
            }
            guard(|| bincode::deserialize::<T>(&b).is_err()).map(|_| true)
        }
    };
    r.eq(s, "a damaged change set is refused or read without a panic", &Ok(true), &res);
}
