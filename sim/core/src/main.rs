mod alloc;
mod enc;
mod hook;
mod io;
mod j2k;
mod oracle;
mod proc;
mod props;
mod rng;
mod runner;
mod spec;
mod tables;

use runner::Tier;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |i: usize| -> &str { a.get(i).map_or("", |s| s.as_str()) };
    let props = props::all();
    let find = |id: &str| -> &'static dyn runner::Prop {
        props.iter().copied().find(|p| p.id() == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    let root = std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let env_tier = tier(&std::env::var("VERIF_TIER").unwrap_or_default());
    // one scratch directory for this command and all processes that it starts
    let top = matches!(get(1), "check" | "survey" | "replay");
    if top {
        proc::clear_stale();
        let d = proc::scratch_root();
        std::env::set_var("SIM_SCRATCH", &d);
    }
    let quit = |code: i32| -> ! {
        if top {
            let _ = std::fs::remove_dir_all(proc::scratch_root());
        }
        std::process::exit(code)
    };
    match get(1) {
        "list" => {
            for p in &props {
                println!("{}", p.id());
            }
        }
        "check" => {
            let t = if get(3).is_empty() { env_tier } else { tier(get(3)) };
            let limit = get(4).parse().ok();
            quit(runner::check(find(get(2)), seed, t, &root, limit))
        }
        "survey" => {
            let n = get(3).parse().unwrap_or(10_000);
            runner::survey(find(get(2)), seed, env_tier, n);
            quit(0)
        }
        "worker" => {
            let n = |i: usize| get(i).parse::<u64>().expect("number");
            runner::worker(find(get(2)), n(3), tier(get(4)), n(5), n(6), n(7))
        }
        "eval" => runner::eval_loop(find(get(2)), get(3) == "trace"),
        "replay" => {
            let s = std::fs::read_to_string(get(2)).expect("replay file");
            let doc: serde_json::Value = serde_json::from_str(&s).expect("replay file");
            quit(runner::replay(find(doc["property"].as_str().unwrap_or("")), &doc))
        }
        "gen" => {
            // print the scenario of an index
            let p = find(get(2));
            let i: u64 = get(3).parse().expect("index");
            println!("{}", serde_json::to_string_pretty(&runner::scenario_of(p, seed, i, env_tier)).unwrap());
        }
        _ => {
            eprintln!("usage: grib-sim check|survey|replay|list|gen ...");
            std::process::exit(2)
        }
    }
}
