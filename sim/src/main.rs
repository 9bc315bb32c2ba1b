mod atomics;
mod cov;
mod docchecks;
mod docgen;
mod edits;
mod entity;
mod enums;
mod fw;
mod judge;
mod morechecks;
mod rng;
mod sched;
mod schema;
mod seam;
mod snap;
mod step;
mod tenant;
mod view;
mod viewchecks;
mod world;
mod worldchecks;

use std::time::Instant;

fn main() {
    let t0 = Instant::now();
    // the environment is the simulator's, not the caller's
    unsafe {
        std::env::set_var("RUST_BACKTRACE", "0");
        std::env::set_var("TZ", "UTC");
    }
    let mut a: Vec<String> = std::env::args().skip(1).collect();
    let mut get = |k: &str| -> Option<String> {
        let i = a.iter().position(|x| x == k)?;
        let v = a.get(i + 1).cloned();
        a.drain(i..(i + 2).min(a.len()));
        v
    };
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or(d.into());
    let runs = get("--runs").and_then(|s| s.parse().ok());
    let cap_s = get("--cap").and_then(|s| s.parse().ok());
    let workers = get("--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let seed = get("--seed").unwrap_or(env("VERIF_SEED", "1")).parse().unwrap_or(1);
    let tier = get("--tier").unwrap_or(env("VERIF_TIER", "quick"));
    let home = std::path::PathBuf::from(get("--home").unwrap_or(env("VERIF_HOME", "/verif")));
    let mut defs = vec![];
    defs.extend(docchecks::defs());
    defs.extend(worldchecks::defs());
    defs.extend(morechecks::defs());
    defs.extend(entity::defs());
    defs.extend(viewchecks::defs());
    edits::sanity();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let id = a.get(1).cloned().unwrap_or_default();
            match defs.iter().find(|d| d.id == id) {
                Some(d) => fw::check(
                    d,
                    &fw::Opts {
                        home,
                        seed,
                        tier,
                        workers,
                        runs,
                        cap_s,
                        t0,
                    },
                ),
                None => {
                    eprintln!("no check {id}");
                    2
                }
            }
        }
        Some("replay") => fw::replay(&defs, &a[1]),
        Some("plan") => {
            let d = defs.iter().find(|d| d.id == a[1]).expect("check");
            println!("{}", serde_json::to_string_pretty(&fw::gen_plan(d, seed, a[2].parse().unwrap())).unwrap());
            0
        }
        _ => {
            eprintln!("usage: ifcsim check ID | replay FILE | plan ID RUN");
            2
        }
    };
    std::process::exit(code);
}
