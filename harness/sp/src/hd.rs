//! Extended keys whose derived secrets have the parity a scenario asks for.
use bitcoin::bip32::{ChildNumber, DerivationPath, Xpriv};
use hcore::serde_json::Value;
use hcore::{Env, Rng};
use std::collections::HashMap;

pub struct Hd {
    pub xpriv: Xpriv,
    pub paths: HashMap<String, DerivationPath>,
}
impl Hd {
    pub fn bind(env: &Env, s: &Value, rng: &mut Rng) -> Hd {
        let xpriv = Xpriv::new_master(bitcoin::NetworkKind::Test, &rng.bytes32()).unwrap();
        let mut paths = HashMap::new();
        for d in s["keys"].as_object().unwrap().values() {
            let base = d["base"].as_str().unwrap().to_string();
            if paths.contains_key(&base) {
                continue;
            }
            let odd = d["neg"].as_bool().unwrap();
            loop {
                let mut p: Vec<ChildNumber> = vec![];
                for _ in 0..rng.range(1, 5) {
                    let i = (rng.next() as u32) >> 1;
                    p.push(if rng.chance(1, 2) {
                        ChildNumber::from_hardened_idx(i).unwrap()
                    } else {
                        ChildNumber::from_normal_idx(i).unwrap()
                    });
                }
                let path = DerivationPath::from(p);
                let sk = xpriv.derive_priv(&env.secp, &path).unwrap().private_key;
                if env.is_even(&sk) != odd {
                    env.bind(&base, if odd { sk.negate() } else { sk });
                    paths.insert(base, path);
                    break;
                }
            }
        }
        Hd { xpriv, paths }
    }
}
