mod cfg;
mod gen;
mod props;
mod refm;
mod runner;
mod st;
mod sut;

use runner::Tier;
use std::path::Path;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let tier = |s: &str| {
        if s == "thorough" {
            Tier::Thorough
        } else {
            Tier::Quick
        }
    };
    let find = |id: &str| {
        props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("no property {id}");
            std::process::exit(2)
        })
    };
    match a.get(1).copied() {
        Some("check") => {
            let p = find(a[2]);
            let t = tier(a.get(3).copied().unwrap_or("quick"));
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1u64);
            std::process::exit(runner::check(&p, t, seed));
        }
        Some("shard") => {
            let p = find(a[2]);
            runner::shard(
                &p,
                tier(a[3]),
                a[4].parse().unwrap(),
                a[5].parse().unwrap(),
                Path::new(a[6]),
                a.get(7).map(Path::new),
            );
        }
        Some("corpus") => runner::run_corpus(&find(a[2]), Path::new(a[3])),
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_slice(&std::fs::read(a[2]).expect("replay file")).unwrap();
            let p = find(v["property"].as_str().expect("property"));
            sut::init();
            match runner::replay_value(&p, &v, true) {
                Ok(Ok(x)) => sut::tell(&format!("{} holds on this case ({x:?})\n", p.id)),
                Ok(Err(m)) => {
                    sut::tell(&format!("{m}\nVIOLATION property={} replay={}\n", p.id, a[2]));
                    std::process::exit(1);
                }
                Err(m) => {
                    sut::tell(&format!("{m}\n"));
                    std::process::exit(2);
                }
            }
        }
        // the configuration of a saved mission
        Some("json") => {
            let v: serde_json::Value =
                serde_json::from_slice(&std::fs::read(a[2]).expect("replay file")).unwrap();
            let ps: Vec<cfg::Phase> = serde_json::from_value(v["case"].clone()).expect("mission");
            println!("{}", cfg::mission_json(&ps));
            let r = refm::fly_ref(&ps, &refm::Pert::default(), 20_000);
            for p in &r.phases {
                for s in p {
                    eprintln!("{s:?}");
                }
            }
            eprintln!("{:?} {:?}", r.abort, r.mon);
        }
        Some("one") => {
            let r = props::output::one(a[2], a[3].parse().unwrap());
            sut::tell(&r);
        }
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: pv check ID [quick|thorough] | pv replay FILE | pv list");
            std::process::exit(2);
        }
    }
}
