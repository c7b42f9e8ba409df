//! Runtime monitors for iri-string: drives the real library under generated
//! workloads and compares every observation with independent reference models
//! written from RFC 3986 / 3987 / 6570 and the WHATWG URL Standard.

mod alloc_fault;
mod dict;
mod engine;
mod gen;
mod model;
#[path = "../../obs/src/observe.rs"]
mod observe;
mod props;
mod rng;

use engine::*;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc_fault::FaultAlloc = alloc_fault::FaultAlloc;

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i64>().ok())
        .unwrap_or(1) as u64
}

fn threads() -> usize {
    std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map_or(4, |n| n.get())
                .clamp(1, 16)
        })
}

fn write_replay(id: &str, tier: &str, seed: u64, index: u64, input: &str, msg: &str) -> PathBuf {
    let dir = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}-{seed}-{index}.json"));
    let body = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"index\": {},\n  \"input\": {},\n  \"message\": {},\n  \"how\": \"/verif/bin/check replay <this file>\"\n}}\n",
        json_str(id), json_str(tier), seed as i64, index, json_str(input), json_str(msg)
    );
    let _ = std::fs::write(&p, body);
    p
}

fn write_evidence(
    prop: &Prop,
    tier: &str,
    seed: u64,
    cov: &Cov,
    wall: f64,
    violations: usize,
    completed: bool,
    assumptions: &[&str],
) {
    let mut classes = String::from("{");
    for (i, (k, v)) in cov.classes.iter().enumerate() {
        if i > 0 {
            classes.push_str(", ");
        }
        classes.push_str(&format!("{}: {}", json_str(k), v));
    }
    classes.push('}');
    let samples: Vec<String> = cov.samples.iter().take(8).map(|s| json_str(s)).collect();
    let assumptions: Vec<String> = assumptions.iter().map(|s| json_str(s)).collect();
    let body = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"observations_checked\": {},\n    \"stream_completed\": {},\n    \"classes\": {},\n    \"samples\": [{}]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
        json_str(prop.id), json_str(tier), seed as i64, cov.evals, cov.distinct.len(), json_str(prop.rule),
        cov.observations, completed, classes, samples.join(", "), assumptions.join(", "), wall, violations
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", prop.id)), body) {
        eprintln!("cannot write evidence: {e}");
    }
}

const ASSUMPTIONS: &[&str] = &[
    "the reference models in /verif/harness/src/model.rs state the property correctly",
    "the library is exercised through its public API in a build with debug assertions and overflow checks",
];

fn report_violation(id: &str, tier: &str, seed: u64, index: u64, input: &str, msg: &str) {
    let p = write_replay(id, tier, seed, index, input, msg);
    println!("  case {index}: input {input}");
    println!("  {msg}");
    println!("VIOLATION property={id} replay={}", p.display());
}

/// The monitored run itself; executed in a child process.
fn child(prop: &'static Prop, tier: &str, pos: &Path) -> u8 {
    let seed = seed();
    let (total, cap) = if tier == "thorough" {
        (prop.thorough, 780)
    } else {
        (prop.quick, 240)
    };
    let scale: u64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let start = Instant::now();
    let out = run_stream(
        prop,
        seed,
        total * scale,
        threads(),
        Duration::from_secs(cap),
        Duration::from_secs(30),
        Some(pos),
    );
    let wall = start.elapsed().as_secs_f64();
    write_evidence(
        prop,
        tier,
        seed,
        &out.cov,
        wall,
        out.violations.len(),
        out.completed,
        ASSUMPTIONS,
    );
    println!(
        "{}: {} cases, {} observations checked, {} distinct non-trivial, {:.1} s",
        prop.id,
        out.cov.evals,
        out.cov.observations,
        out.cov.distinct.len(),
        wall
    );
    for (k, v) in &out.cov.classes {
        println!("    {k}: {v}");
    }
    if !out.violations.is_empty() {
        for (i, input, msg) in out.violations.iter().take(5) {
            report_violation(prop.id, tier, seed, *i, input, msg);
        }
        return 1;
    }
    let missing: Vec<_> = prop
        .required
        .iter()
        .filter(|c| out.cov.classes.get(*c).copied().unwrap_or(0) == 0)
        .collect();
    if !missing.is_empty() {
        println!("INCONCLUSIVE property={}: nothing observed of {missing:?}", prop.id);
        return 2;
    }
    0
}

fn check(prop: &'static Prop, tier: &str) -> u8 {
    let exe = std::env::current_exe().expect("own path");
    let pos = std::env::temp_dir().join(format!("vharness-{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&pos).expect("scratch directory");
    let start = Instant::now();
    let out = Command::new(&exe)
        .args(["child", prop.id, tier])
        .arg(&pos)
        .stderr(std::process::Stdio::piped())
        .output()
        .expect("spawn");
    let stdout = String::from_utf8_lossy(&out.stdout).into_owned();
    print!("{stdout}");
    let code = match out.status.code() {
        Some(c @ 0..=2) => c as u8,
        code => {
            // Crash or hang: attribute it to a case.
            let seed = seed();
            let mut cands: Vec<u64> = Vec::new();
            if let Some(l) = stdout.lines().find_map(|l| l.strip_prefix("HANG index=")) {
                cands.extend(l.trim().parse::<u64>().ok());
            }
            for e in std::fs::read_dir(&pos).into_iter().flatten().flatten() {
                if let Ok(b) = std::fs::read(e.path()) {
                    if let Ok(b) = <[u8; 8]>::try_from(b.as_slice()) {
                        let v = u64::from_le_bytes(b);
                        if v != u64::MAX && !cands.contains(&v) {
                            cands.push(v);
                        }
                    }
                }
            }
            println!("child process ended abnormally ({code:?}, {}); re-running {} candidate case(s)", out.status, cands.len());
            let mut found = false;
            for c in cands {
                let (bad, why) = rerun(&exe, prop.id, c);
                if bad {
                    found = true;
                    let mut cov = Cov::default();
                    cov.evals = c;
                    write_evidence(prop, tier, seed, &cov, start.elapsed().as_secs_f64(), 1, false, ASSUMPTIONS);
                    report_violation(prop.id, tier, seed, c, &format!("case {c}"), &why);
                    break;
                }
            }
            if found {
                1
            } else {
                println!("INCONCLUSIVE property={}: {}", prop.id, String::from_utf8_lossy(&out.stderr));
                2
            }
        }
    };
    let _ = std::fs::remove_dir_all(&pos);
    code
}

/// Re-runs one case in its own process with a generous limit.
fn rerun(exe: &Path, id: &str, index: u64) -> (bool, String) {
    let mut ch = Command::new(exe)
        .args(["single", id, &index.to_string()])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("spawn");
    let start = Instant::now();
    loop {
        if let Ok(Some(st)) = ch.try_wait() {
            return match st.code() {
                Some(0) => (false, String::new()),
                Some(1) => (true, "the case fails when run alone".into()),
                _ => (true, format!("the process running this case alone died: {st}")),
            };
        }
        if start.elapsed() > Duration::from_secs(40) {
            let _ = ch.kill();
            let _ = ch.wait();
            return (
                true,
                "the call does not return (two separate processes, 30 s and 40 s, for a case that takes microseconds)".into(),
            );
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn single(prop: &'static Prop, seed: u64, index: u64, verbose: bool) -> u8 {
    let mut cov = Cov::default();
    match run_one(prop, seed, index, &mut cov, verbose) {
        Ok(()) => {
            if verbose {
                println!("property {} holds on case {index} (seed {seed})", prop.id);
            }
            0
        }
        Err((input, msg)) => {
            if verbose {
                println!("input: {input}\n{msg}");
            }
            1
        }
    }
}

fn json_field<'a>(s: &'a str, key: &str) -> Option<&'a str> {
    let k = format!("\"{key}\":");
    let i = s.find(&k)? + k.len();
    let rest = s[i..].trim_start();
    let end = rest.find(['\n', ',']).unwrap_or(rest.len());
    Some(rest[..end].trim().trim_matches('"'))
}

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    install_hook();
    let find = |id: &str| -> &'static Prop {
        match props::find(id) {
            Some(p) => p,
            None => {
                eprintln!("unknown property {id}");
                std::process::exit(3)
            }
        }
    };
    let code = match a.as_slice() {
        ["dictionary"] => {
            for (k, n) in dict::collect() {
                println!("{n} {k}");
            }
            0
        }
        ["list"] => {
            // W01 measures time and stack: nothing for instrumented builds.
            for p in props::all().into_iter().filter(|p| p.id != "W01") {
                println!("{}", p.id);
            }
            0
        }
        // The hash of everything observed, case by case, in the given order.
        ["observe", from, count, order] => {
            let (from, count): (u64, u64) = (from.parse().unwrap(), count.parse().unwrap());
            let mut o = String::new();
            for k in 0..count {
                let i = from + if *order == "backward" { count - 1 - k } else { k };
                let (a, b, _) = observe::observe(seed(), i, false);
                o.push_str(&format!("{i} {:x} {:x} {}\n", a.hash, b.hash, a.len + b.len));
            }
            print!("{o}");
            0
        }
        ["observed", i] => {
            let (a, b, _) = observe::observe(seed(), i.parse().unwrap(), true);
            println!("{}{}", a.text.unwrap(), b.text.unwrap());
            0
        }
        ["selftest"] => match catch(model::selftest) {
            Ok(()) => 0,
            Err(e) => {
                eprintln!("{e}");
                3
            }
        },
        ["selftest-miri"] => {
            println!("miri-ready");
            0
        }
        ["check", id, tier] => check(find(id), tier),
        ["child", id, tier, pos] => child(find(id), tier, Path::new(pos)),
        ["single", id, index] => single(find(id), seed(), index.parse().unwrap(), false),
        ["show", id, index] => single(find(id), seed(), index.parse().unwrap(), true),
        ["replay", file] => {
            let s = std::fs::read_to_string(file).expect("replay file");
            let id = json_field(&s, "property").expect("property").to_string();
            let seed: i64 = json_field(&s, "seed").expect("seed").parse().expect("seed");
            let index: u64 = json_field(&s, "index").expect("index").parse().expect("index");
            single(find(&id), seed as u64, index, true)
        }
        // A bounded number of cases of several properties in this process; used
        // under sanitizers and under Miri.
        ["batch", from, count, ids @ ..] => {
            let (from, count): (u64, u64) = (from.parse().unwrap(), count.parse().unwrap());
            let mut bad = 0;
            let mut cov = Cov::default();
            let trace = std::env::var_os("VERIF_TRACE").is_some();
            for id in ids {
                let p = find(id);
                for k in 0..count {
                    // Spread over the whole stream.
                    let i = Rng::new(from + k).next() % p.quick;
                    if trace {
                        // Tells the parent which case a tool's report belongs to.
                        println!("CASE {id} {i}");
                        let _ = std::io::stdout().flush();
                    }
                    if let Err((input, msg)) = run_one(p, seed(), i, &mut cov, false) {
                        println!("FAIL {id} {i} input {input}\n  {msg}");
                        bad += 1;
                    }
                }
            }
            println!("batch: evals={} observations={} failures={bad}", cov.evals, cov.observations);
            u8::from(bad > 0)
        }
        _ => {
            eprintln!("usage: check ID quick|thorough | replay FILE | show ID INDEX | list");
            3
        }
    };
    let _ = std::io::stdout().flush();
    ExitCode::from(code)
}
