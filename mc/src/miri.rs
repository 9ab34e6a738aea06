//! Runs the interpreter part of a check: every case of the given spaces under Miri, in parallel shards.
use crate::engine::{js, root, violation, Suite, Tier};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::Instant;

const SHARDS: usize = 8;

fn cmd(args: &[&str]) -> Command {
    let mut c = Command::new("cargo");
    c.args(["+nightly", "miri", "run", "--offline", "--locked", "-q", "--manifest-path"])
        .arg(root().join("mc/Cargo.toml"))
        .arg("--target-dir")
        .arg(root().join("mc/target/miri"))
        .arg("--")
        .args(args)
        .env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks")
        .env("RUSTFLAGS", "-Awarnings")
        .env_remove("RUSTUP_TOOLCHAIN")
        .env_remove("CARGO")
        .env_remove("RUSTC")
        .stdin(Stdio::null())
        .stdout(Stdio::null());
    c
}

struct Shard {
    log: PathBuf,
    ok: bool,
    text: String,
}

pub fn run(id: &str, tier: Tier, suites: &[Suite]) -> i32 {
    let t0 = Instant::now();
    let dir = root().join("mc/target/miri-log");
    let _ = std::fs::create_dir_all(&dir);
    // build, and see that the interpreter works at all
    let ready = cmd(&["miri-list", id, tier.name()]).stderr(Stdio::piped()).output();
    match ready {
        Ok(o) if o.status.success() => {}
        o => {
            let m = match o {
                Ok(o) => String::from_utf8_lossy(&o.stderr).lines().rev().take(20).collect::<Vec<_>>().join(" | "),
                Err(e) => e.to_string(),
            };
            println!("note: the interpreter could not be used, its part of {id} was not explored: {m}");
            evidence(id, &format!("\"not run: {}\"", js(&m).trim_matches('"')));
            return 0;
        }
    }
    let mut kids = vec![];
    for k in 0..SHARDS {
        let log = dir.join(format!("{id}.{k}.log"));
        let f = match std::fs::File::create(&log) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("cannot write {}: {e}", log.display());
                return 2;
            }
        };
        match cmd(&["miri", id, tier.name(), &k.to_string(), &SHARDS.to_string()]).stderr(f).spawn() {
            Ok(c) => kids.push((log, c)),
            Err(e) => {
                eprintln!("cannot start the interpreter: {e}");
                return 2;
            }
        }
    }
    let mut shards = vec![];
    for (log, mut c) in kids {
        let ok = c.wait().map(|s| s.success()).unwrap_or(false);
        let text = String::from_utf8_lossy(&std::fs::read(&log).unwrap_or_default()).to_string();
        shards.push(Shard { log, ok, text });
    }
    let mut code = 0;
    let mut total = 0;
    let mut unsupported = 0;
    for s in &shards {
        for l in s.text.lines() {
            if let Some(x) = l.strip_prefix("@done ") {
                total += x.rsplit(' ').next().and_then(|n| n.parse::<u64>().ok()).unwrap_or(0);
            }
        }
        if s.ok || code != 0 {
            continue;
        }
        let last = s.text.lines().filter(|l| l.starts_with('@') && !l.starts_with("@done")).last().unwrap_or("@? 0");
        let (name, idx) = last[1..].split_once(' ').unwrap_or(("?", "0"));
        let report: Vec<&str> = s.text.lines().skip_while(|l| !l.starts_with("error")).take(40).collect();
        let first = report.first().copied().unwrap_or("");
        if first.contains("Undefined Behavior") {
            violation(id, tier, &format!("miri:{name}"), idx.parse().unwrap_or(0), &format!("Miri: {}", report.join("\n")));
            code = 1;
        } else {
            unsupported += 1;
            println!("note: a shard of the interpreter part stopped without a verdict ({}): {first}", s.log.display());
        }
    }
    let spaces = suites.iter().map(|s| format!("{{\"name\": {}, \"space\": {}, \"cases\": {}}}", js(s.name), js(&s.space), s.count)).collect::<Vec<_>>().join(", ");
    evidence(
        id,
        &format!(
            "{{\"cases_interpreted\": {total}, \"cases_in_spaces\": {}, \"shards\": {SHARDS}, \"shards_without_verdict\": {unsupported}, \"undefined_behaviour\": {}, \"wall_s\": {:.1}, \"suites\": [{spaces}]}}",
            suites.iter().map(|s| s.count).sum::<u64>(),
            code,
            t0.elapsed().as_secs_f64()
        ),
    );
    if code == 1 {
        let p = root().join(format!("evidence/{id}.json"));
        if let Ok(s) = std::fs::read_to_string(&p) {
            let _ = std::fs::write(&p, s.replace("\"violations\": 0", "\"violations\": 1"));
        }
    }
    println!("{id} {}: {total} cases interpreted by Miri, {:.1}s", tier.name(), t0.elapsed().as_secs_f64());
    code
}

/// Add the interpreter's part to the evidence that the native part wrote.
fn evidence(id: &str, what: &str) {
    let p = root().join(format!("evidence/{id}.json"));
    if let Ok(s) = std::fs::read_to_string(&p) {
        let _ = std::fs::write(&p, s.replacen("\"coverage\": {\n", &format!("\"coverage\": {{\n  \"miri\": {what},\n"), 1));
    }
}
