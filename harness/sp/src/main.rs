mod code;
mod gen;
mod labels;
mod hd;
mod proto;
mod psbt;
use hcore::{read_lines, Env, Report, Rng};

fn proto_run(prop: &str, seed: u64, scn: &str, exp: &str, out: &str) {
    let (scns, exps) = (read_lines(scn), read_lines(exp));
    let exps: std::collections::HashMap<u64, _> =
        exps.into_iter().map(|e| (e["id"].as_u64().unwrap(), e)).collect();
    let mut r = Report::default();
    for s in &scns {
        let id = s["id"].as_u64().unwrap();
        let e = exps.get(&id).unwrap_or_else(|| panic!("no specification result for scenario {id}"));
        let salt = format!("{prop}/{id}");
        let env = Env::new(seed, &salt);
        let mut rng = Rng::new(seed, &format!("run/{salt}"));
        let is_hd = prop == "C20" && !s["skeys"].as_array().unwrap().is_empty() && id % 2 == 0;
        let h = is_hd.then(|| hd::Hd::bind(&env, s, &mut rng));
        let w = proto::World::new(s, e, env);
        r.checked += 1;
        match prop {
            "C01" | "C07" => proto::agreement(&w, &mut r, &mut rng),
            "C02" => proto::soundness(&w, &mut r, &mut rng),
            "C03" => proto::sender(&w, &mut r, &mut rng),
            "C04" => proto::eligibility(&w, &mut r, &mut rng),
            "C05" => proto::tweak_data(&w, &mut r, &mut rng),
            "C16" => proto::light(&w, &mut r, &mut rng),
            "C08" | "C09" | "C10" => psbt::compare(prop, &w, &mut r, &mut rng),
            "C20" => proto::helpers(&w, &mut r, &mut rng, h.as_ref()),
            _ => panic!("no comparison for {prop}"),
        }
        if r.samples.len() < 3 {
            r.samples.push(s.clone());
        }
    }
    if prop == "C20" {
        proto::helper_cancel(seed, &mut r);
    }
    r.finish(out);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "gen" => {
            let (seed, n) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let v = match a[2].as_str() {
                "C06" => code::generate(seed, n),
                "labels" => labels::generate(seed, n),
                "C08" | "C09" | "C10" => psbt::generate(&a[2], seed, n),
                p => gen::generate(p, seed, n),
            };
            let s: String = v.iter().map(|x| format!("{x}\n")).collect();
            std::fs::write(&a[5], s).unwrap();
        }
        "run" if a[2] == "C06" => code::run(&a[4], &a[5], &a[6]),
        "run" if a[2] == "labels" => labels::run(a[3].parse().unwrap(), &a[4], &a[5], &a[6]),
        "run" => proto_run(&a[2], a[3].parse().unwrap(), &a[4], &a[5], &a[6]),
        x => panic!("unknown command {x}"),
    }
}
