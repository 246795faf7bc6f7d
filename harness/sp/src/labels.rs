//! C07: label scalars, points and codes in every place that computes them.
use bdk_sp::encoding::SilentPaymentCode;
use bitcoin::secp256k1::{PublicKey, SecretKey};
use bitcoin::{Network, ScriptBuf};
use hcore::serde_json::{json, Value};
use hcore::{guard, read_lines, Env, Report, Rng};
use indexer::bdk_chain::ConfirmationBlockTime;
use indexer::v2::{SpIndexerV2, SpPub};
use std::collections::{BTreeMap, HashMap};

const EDGES: &[u32] = &[
    0, 1, 2, 3, 127, 128, 255, 256, 257, 65535, 65536, 65537, 0x01000000, 0x00ffffff, 0x7fffffff, 0x80000000, 0x80000001,
    0xfffffffe, 0xffffffff, 0x01020304, 0x04030201,
];

pub fn generate(seed: u64, n: usize) -> Vec<Value> {
    (0..n)
        .map(|id| {
            let mut r = Rng::new(seed, &format!("labels/{id}"));
            let wallets: Vec<Value> = (0..r.range(1, 2))
                .map(|w| json!({"scan": format!("b{w}"), "scanneg": r.chance(1, 2), "spend": if r.chance(1, 8) {format!("b{w}")} else {format!("s{w}")}, "spendneg": r.chance(1, 2)}))
                .collect();
            let k = r.range(2, 8);
            let mut nums: Vec<u32> = (0..k)
                .map(|_| match r.below(4) {
                    0 => r.next() as u32,
                    1 => 1 << r.below(32),
                    _ => *r.pick(EDGES),
                })
                .collect();
            if r.chance(1, 2) {
                let d = nums[0];
                nums.push(d); // the same number again
            }
            if r.chance(1, 3) {
                let d = nums[0].swap_bytes();
                nums.push(d);
            }
            json!({"id": id, "version": if r.chance(1, 2) { 0 } else { r.range(1, 30) }, "wallets": wallets, "nums": nums.iter().map(|x| x.to_string()).collect::<Vec<_>>()})
        })
        .collect()
}

pub fn run(seed: u64, scn: &str, exp: &str, out: &str) {
    let exps: HashMap<u64, Value> = read_lines(exp).into_iter().map(|e| (e["id"].as_u64().unwrap(), e)).collect();
    let mut r = Report::default();
    for s in read_lines(scn) {
        let id = s["id"].as_u64().unwrap();
        let e = &exps[&id];
        let env = Env::new(seed, &format!("labels/{id}"));
        let nums: Vec<u32> = s["nums"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().parse().unwrap()).collect();
        r.checked += 1;
        let mut placeholders: BTreeMap<ScriptBuf, (PublicKey, PublicKey)> = BTreeMap::new();
        for (wi, w) in s["wallets"].as_array().unwrap().iter().enumerate() {
            let key = |b: &str, n: &str| {
                let k = env.base(w[b].as_str().unwrap());
                if w[n].as_bool().unwrap() { k.negate() } else { k }
            };
            let (scan, spend) = (key("scan", "scanneg"), key("spend", "spendneg"));
            let (scan_pk, spend_pk) = (env.point(&scan), env.point(&spend));
            let ew = &e["wallets"][wi];
            let pk = |v: &Value| PublicKey::from_slice(&env.bytes(v.as_str().unwrap())).unwrap();
            let net = [Network::Bitcoin, Network::Testnet, Network::Testnet4, Network::Signet, Network::Regtest][(id % 5) as usize];
            let base = SilentPaymentCode::new_v0(scan_pk, spend_pk, net);
            // the same keys in a code of another version
            let ver = e["version"].as_u64().unwrap() as u8;
            let hrp: &[u8] = [&b"sp"[..], b"tsp", b"sprt"][(id % 3) as usize];
            let text = crate::code::string(hrp, ver, &[scan_pk.serialize(), spend_pk.serialize()].concat());
            let future = match guard(|| SilentPaymentCode::try_from(text.as_str()).map_err(|e| e.to_string())) {
                Ok(Ok(c)) => c,
                Ok(Err(x)) | Err(x) => {
                    r.bad(&s, "parsing a code", text.clone(), x);
                    continue;
                }
            };
            r.eq(&s, "keys of the base code", &(pk(&ew["scan"]), pk(&ew["spend"])), &(base.scan, base.spend));
            let mut idx1 = indexer::SpIndexes::default();
            let mut idx2 = SpIndexerV2::<ConfirmationBlockTime>::new(scan, spend_pk);
            let mut addr2 = SpIndexerV2::<ConfirmationBlockTime>::new(scan, spend_pk);
            let mut seen: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
            let mut expected_table: BTreeMap<PublicKey, (SecretKey, u32)> = BTreeMap::new();
            let mut check_placeholder = |r: &mut Report, c: &SilentPaymentCode| {
                let a = guard(|| c.get_placeholder_p2tr_spk());
                let b = guard(|| SilentPaymentCode::new_v0(c.scan, c.spend, Network::Bitcoin).get_placeholder_p2tr_spk());
                r.eq(&s, "placeholder is a function of the keys", &a, &b);
                if let Ok(a) = a {
                    r.check(&s, "placeholder is a taproot script", a.is_p2tr() && bitcoin::XOnlyPublicKey::from_slice(&a.as_bytes()[2..]).is_ok());
                    let prev = placeholders.insert(a, (c.scan, c.spend));
                    r.check(&s, "placeholders of different codes differ", prev.is_none() || prev == Some((c.scan, c.spend)));
                }
            };
            check_placeholder(&mut r, &base);
            for (j, m) in nums.iter().enumerate() {
                let el = &ew["labels"][j];
                let tweak = SecretKey::from_slice(&env.bytes(el["tweak"].as_str().unwrap())).unwrap();
                let point = pk(&el["point"]);
                let lspend = pk(&el["spend"]);
                let fresh = seen.insert(*m, lspend.serialize().to_vec()).is_none();
                expected_table.insert(point, (tweak, *m));
                r.count(if fresh { "labels" } else { "labels added again" });
                let t = guard(|| SilentPaymentCode::get_label(scan, *m));
                r.eq(&s, "label scalar", &Ok(tweak.secret_bytes()), &t.clone().map(|x| x.to_be_bytes()));
                let Ok(t) = t else { continue };
                match guard(|| base.add_label(t).map_err(|e| e.to_string())) {
                    Ok(Ok(c)) => {
                        r.eq(&s, "labelled code", &(scan_pk, lspend, 0, net), &(c.scan, c.spend, c.version(), c.network));
                        check_placeholder(&mut r, &c);
                    }
                    Ok(Err(x)) | Err(x) => r.bad(&s, "labelled code", "a code".into(), x),
                }
                match guard(|| future.add_label(t).map_err(|e| e.to_string())) {
                    Ok(Ok(c)) => {
                        let want = (scan_pk, lspend, ver, future.network);
                        r.eq(&s, "labelled code of any version", &want, &(c.scan, c.spend, c.version(), c.network));
                    }
                    Ok(Err(x)) | Err(x) => r.bad(&s, "labelled code of any version", "a code".into(), x),
                }
                // version 1 index
                let before = idx1.clone();
                match guard(|| idx1.add_label(base.clone(), scan, *m).map_err(|e| e.to_string())) {
                    Ok(Ok(c)) => {
                        r.eq(&s, "labelled code (v1 index)", &(scan_pk, lspend, 0, net), &(c.scan, c.spend, c.version(), c.network));
                    }
                    Ok(Err(x)) | Err(x) => r.bad(&s, "labelled code (v1 index)", "a code".into(), x),
                }
                if !fresh {
                    r.check(&s, "adding a label again changes nothing (v1 index)", before == idx1);
                }
                r.eq(&s, "label scalar (v1 index)", &Some(tweak.secret_bytes()), &idx1.get_label(*m).map(|x| x.to_be_bytes()));
                r.eq(&s, "label point (v1 index)", &Some(&point), &idx1.num_to_label.get(m));
                // version 2 index
                let before = idx2.index().clone();
                let cs = guard(|| idx2.add_label(*m));
                match cs {
                    Ok(cs) => {
                        let got: Vec<_> = cs.label_lookup.iter().map(|l| (l.num, l.tweak.to_be_bytes(), l.point)).collect();
                        r.check(&s, "label reported as change (v2 index)", got == vec![(*m, tweak.secret_bytes(), point)] || (!fresh && got.is_empty()));
                    }
                    Err(x) => r.bad(&s, "adding a label (v2 index)", "a change set".into(), x),
                }
                if !fresh {
                    r.check(&s, "adding a label again changes nothing (v2 index)", before == *idx2.index());
                }
                r.eq(&s, "label scalar (v2 index)", &Some(tweak.secret_bytes()), &idx2.index().get_label(*m).map(|x| x.to_be_bytes()));
                r.eq(&s, "label point (v2 index)", &Some(&point), &idx2.index().num_to_label.get(m));
                let l = SpPub::new(scan, spend_pk).create_label(*m);
                r.eq(&s, "created label", &(*m, tweak.secret_bytes(), point), &(l.num, l.tweak.to_be_bytes(), l.point));
                match guard(|| addr2.get_labeled_address(*m, net)) {
                    Ok(c) => {
                        r.eq(&s, "labelled address (v2 index)", &(scan_pk, lspend, 0, net), &(c.scan, c.spend, c.version(), c.network));
                        r.eq(&s, "label known after handing out its address", &Some(tweak.secret_bytes()), &addr2.index().get_label(*m).map(|x| x.to_be_bytes()));
                    }
                    Err(x) => r.bad(&s, "labelled address (v2 index)", "a code".into(), x),
                }
                let a = addr2.get_address(net);
                r.eq(&s, "base address (v2 index)", &(scan_pk, spend_pk, 0, net), &(a.scan, a.spend, a.version(), a.network));
            }
            let distinct: std::collections::BTreeSet<_> = seen.values().collect();
            r.eq(&s, "different numbers give different codes", &seen.len(), &distinct.len());
            let t1: BTreeMap<_, _> = idx1.label_to_tweak.iter().map(|(p, (t, m))| (*p, (SecretKey::from_slice(&t.to_be_bytes()).unwrap(), *m))).collect();
            let t2: BTreeMap<_, _> = idx2.index().label_lookup.iter().map(|(p, (t, m))| (*p, (SecretKey::from_slice(&t.to_be_bytes()).unwrap(), *m))).collect();
            let t3: BTreeMap<_, _> = addr2.index().label_lookup.iter().map(|(p, (t, m))| (*p, (SecretKey::from_slice(&t.to_be_bytes()).unwrap(), *m))).collect();
            r.eq(&s, "label table (v1 index)", &expected_table, &t1);
            r.eq(&s, "label table (v2 index)", &expected_table, &t2);
            r.eq(&s, "label table (v2 index, addresses)", &expected_table, &t3);
        }
        if r.samples.len() < 2 {
            r.samples.push(s.clone());
        }
    }
    r.finish(out);
}
