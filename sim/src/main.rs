#![allow(non_snake_case)]
#[macro_use]
mod exec;
mod glue;
mod learn;
mod ops;
mod orch;
mod props;
mod spec;

#[global_allocator]
static ALLOC: simos::SimAlloc = simos::SimAlloc;

fn opt(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    exec::global_init();
    let a: Vec<String> = std::env::args().collect();
    let seed = opt(&a, "--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|x| x.parse().ok())
        .unwrap_or(1u64);
    let tier = opt(&a, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let code = match a.get(1).map(|x| x.as_str()) {
        Some("check") => match props::find(&a[2]) {
            None => {
                eprintln!("unknown property {}", a[2]);
                2
            }
            Some(p) => {
                let (r, c) = if thorough { p.thorough } else { p.quick };
                let runs = opt(&a, "--runs").and_then(|x| x.parse().ok()).unwrap_or(r);
                let cap = opt(&a, "--cap").and_then(|x| x.parse().ok()).unwrap_or(c);
                orch::check(p, seed, thorough, runs, cap)
            }
        },
        Some("replay") => orch::replay(&a[2]),
        Some("one") => {
            let p = props::find(&a[2]).expect("property");
            let s = orch::spec_for(p, seed, a[3].parse().expect("index"), thorough);
            print!("{}", s.to_json().text());
            let t = std::time::Instant::now();
            let o = exec::run(&s, Box::leak(Box::new(exec::Shm::new(48 << 20))), false);
            println!("{:#?}\n{:?}", o, t.elapsed());
            0
        }
        Some("determinism") => {
            let ids: Vec<&props::Prop> = if a.len() > 2 && !a[2].starts_with("--") {
                a[2].split(',').filter_map(props::find).collect()
            } else {
                props::ALL.iter().collect()
            };
            let n = opt(&a, "--runs").and_then(|x| x.parse().ok()).unwrap_or(60);
            orch::determinism(&ids, seed, n)
        }
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check ID | replay FILE | one ID IDX | determinism [IDS] | list");
            2
        }
    };
    std::process::exit(code);
}
