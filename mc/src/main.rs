//! Exhaustive bounded model checker for perf-event-data. See /verif/DESIGN.md.
mod alloc;
mod dump;
mod enc;
mod engine;
mod miri;
#[macro_use]
mod env;
mod props;
mod spec;

use engine::Tier;

#[cfg(not(miri))]
#[global_allocator]
static A: alloc::Guard = alloc::Guard;

fn tier(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => die("tier must be quick or thorough"),
    }
}
fn die(m: &str) -> ! {
    eprintln!("mc: {m}");
    std::process::exit(2)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let code = match s[1..] {
        // "native" leaves out the interpreter's part
        [cmd @ ("run" | "native"), id, t] => {
            let t = tier(t);
            let suites = props::suites(id, t).unwrap_or_else(|| die("unknown property"));
            let names: Vec<&'static str> = suites.iter().map(|s| s.name).collect();
            let code = engine::supervise(id, t, &names, &[]);
            let ms = props::miri_suites(id, t);
            if code == 0 && cmd == "run" && !ms.is_empty() {
                miri::run(id, t, &ms)
            } else {
                code
            }
        }
        ["work", id, t, progress] => {
            let t = tier(t);
            let suites = props::suites(id, t).unwrap_or_else(|| die("unknown property"));
            engine::work(id, t, suites, std::path::Path::new(progress), props::ASSUMPTIONS, Default::default())
        }
        ["case", id, t, suite, idx] => {
            let suites = props::suites(id, tier(t)).unwrap_or_else(|| die("unknown property"));
            let su = suites.iter().find(|x| x.name == suite).unwrap_or_else(|| die("unknown suite"));
            engine::one_case(id, su, idx.parse().unwrap(), false)
        }
        ["list", id, t] => {
            for x in props::suites(id, tier(t)).unwrap_or_else(|| die("unknown property")) {
                println!("{:<28} {:>12}  {}", x.name, x.count, x.space);
            }
            0
        }
        ["miri-list", id, t] => {
            for x in props::miri_suites(id, tier(t)) {
                println!("{:<28} {:>12}  {}", x.name, x.count, x.space);
            }
            0
        }
        // a shard (k of n) of the interpreter's spaces, or a single case of it
        ["miri", id, t, k, n] => {
            let (k, n): (u64, u64) = (k.parse().unwrap(), n.parse().unwrap());
            engine::install_hook();
            let t0 = std::time::Instant::now();
            // a slow machine must not cost the verdict; what was left out shows in the counts
            let limit = std::time::Duration::from_secs(tier(t).pick(450, 7200));
            for x in props::miri_suites(id, tier(t)) {
                let c = engine::shard(&x, k, n, t0, limit);
                eprintln!("@done {} {c}", x.name);
                if std::env::var_os("MC_TIME").is_some() { eprintln!("# {:?}", t0.elapsed()); }
            }
            0
        }
        ["miri-case", id, t, suite, idx] => {
            let suites = props::miri_suites(id, tier(t));
            let x = suites.iter().find(|x| x.name == suite).unwrap_or_else(|| die("unknown suite"));
            engine::install_hook();
            engine::miri_case(x, idx.parse().unwrap());
            0
        }
        _ => die("usage: mc run|list ID TIER | case ID TIER SUITE INDEX"),
    };
    std::process::exit(code)
}
