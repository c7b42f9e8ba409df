//! Case engine: deterministic case streams, worker threads, coverage counters,
//! crash and hang attribution, evidence.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Result of one monitored case.
pub type R = Result<(), String>;

#[macro_export]
macro_rules! ck {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err(format!($($arg)*));
        }
    };
}

/// Checks equality of an observation with the oracle's expectation.
#[macro_export]
macro_rules! eq {
    ($got:expr, $want:expr, $($arg:tt)*) => {
        match (&$got, &$want) {
            (got, want) => {
                if *got != *want {
                    return Err(format!("{}: observed {:?}, expected {:?}", format!($($arg)*), got, want));
                }
            }
        }
    };
}

pub use crate::rng::Rng;

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in bytes {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

#[derive(Default)]
pub struct Cov {
    pub classes: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub evals: u64,
    pub observations: u64,
    pub samples: Vec<String>,
}

/// Per-case context.
pub struct Cx<'a> {
    pub rng: Rng,
    pub cov: &'a mut Cov,
    pub index: u64,
    pub input: String,
    pub verbose: bool,
}

impl Cx<'_> {
    pub fn hit(&mut self, class: &'static str) {
        *self.cov.classes.entry(class).or_insert(0) += 1;
    }
    /// Records what is being fed to the system under test.
    pub fn input(&mut self, s: String) {
        if self.verbose {
            eprintln!("input: {s}");
        }
        self.input = s;
    }
    /// Counts the current case as non-trivial.
    pub fn nontrivial(&mut self) {
        if self.cov.distinct.len() < 300_000 {
            self.cov.distinct.insert(fnv(self.input.as_bytes()));
        }
        let n = self.cov.samples.len();
        if n < 3 || (n < 6 && self.index % 977 == 0) {
            self.cov.samples.push(self.input.clone());
        }
    }
    /// Counts comparisons of an observation against the oracle.
    pub fn obs(&mut self, n: u64) {
        self.cov.observations += n;
    }
}

pub struct Prop {
    pub id: &'static str,
    /// Cases in the quick tier / thorough tier.
    pub quick: u64,
    pub thorough: u64,
    pub case: fn(&mut Cx<'_>, u64) -> R,
    pub rule: &'static str,
    /// Coverage classes that must have been observed for a verdict.
    pub required: &'static [&'static str],
}

#[derive(Clone, Copy, PartialEq, Eq)]
#[allow(dead_code)]
pub enum Tier {
    Quick,
    Thorough,
}

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    let mut r = Rng::new(seed ^ fnv(id.as_bytes()));
    let a = r.next();
    Rng::new(a ^ index.wrapping_mul(0xD129_0D3B_3B2F_0F2D)).next()
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {loc}: {msg}")));
    }));
}

/// Runs `f`, turning a panic into its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panicked".to_string())
    })
}

pub fn run_one(
    prop: &Prop,
    seed: u64,
    index: u64,
    cov: &mut Cov,
    verbose: bool,
) -> Result<(), (String, String)> {
    let mut cx = Cx {
        rng: Rng::new(case_seed(seed, prop.id, index)),
        cov,
        index,
        input: String::new(),
        verbose,
    };
    let r = catch(|| (prop.case)(&mut cx, index));
    cx.cov.evals += 1;
    let input = std::mem::take(&mut cx.input);
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => Err((input, m)),
        Err(p) => Err((input, p)),
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Outcome {
    pub cov: Cov,
    /// (index, input, message)
    pub violations: Vec<(u64, String, String)>,
    pub completed: bool,
    #[allow(dead_code)]
    pub hang: Option<u64>,
}

/// Runs the case stream `0..total` on worker threads.
///
/// `pos_dir`: every worker publishes the case it is about to execute there, so
/// that a crash of the process can be attributed to a case by the parent.
pub fn run_stream(
    prop: &'static Prop,
    seed: u64,
    total: u64,
    threads: usize,
    time_cap: Duration,
    hang_cap: Duration,
    pos_dir: Option<&std::path::Path>,
) -> Outcome {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let all = Mutex::new((Cov::default(), Vec::new()));
    let start = Instant::now();
    const IDLE: u64 = u64::MAX;
    let current: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(IDLE)).collect();
    let live = AtomicU64::new(threads as u64);
    let hang = Mutex::new(None);
    let timed_out = AtomicBool::new(false);
    std::thread::scope(|sc| {
        for w in 0..threads {
            let (next, stop, all, current, live, timed_out) =
                (&next, &stop, &all, &current, &live, &timed_out);
            let pos_file = pos_dir.map(|d| d.join(format!("w{w}")));
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    let mut cov = Cov::default();
                    let mut viol = Vec::new();
                    let mut f = pos_file.map(|p| std::fs::File::create(p).expect("position file"));
                    'outer: loop {
                        const CHUNK: u64 = 32;
                        let base = next.fetch_add(CHUNK, Ordering::Relaxed);
                        if base >= total {
                            break;
                        }
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if start.elapsed() > time_cap {
                            timed_out.store(true, Ordering::Relaxed);
                            break;
                        }
                        for i in base..(base + CHUNK).min(total) {
                            if let Some(f) = f.as_mut() {
                                use std::os::unix::fs::FileExt;
                                let _ = f.write_all_at(&i.to_le_bytes(), 0);
                            }
                            current[w].store(i, Ordering::Relaxed);
                            if let Err((input, msg)) = run_one(prop, seed, i, &mut cov, false) {
                                viol.push((i, input, msg));
                                if viol.len() >= 3 {
                                    stop.store(true, Ordering::Relaxed);
                                    break 'outer;
                                }
                            }
                            current[w].store(IDLE, Ordering::Relaxed);
                        }
                    }
                    if let Some(f) = f.as_mut() {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_all_at(&IDLE.to_le_bytes(), 0);
                    }
                    current[w].store(IDLE, Ordering::Relaxed);
                    let mut g = all.lock().unwrap();
                    g.0.evals += cov.evals;
                    g.0.observations += cov.observations;
                    for (k, v) in cov.classes {
                        *g.0.classes.entry(k).or_insert(0) += v;
                    }
                    g.0.distinct.extend(cov.distinct);
                    if g.0.samples.len() < 12 {
                        g.0.samples.extend(cov.samples);
                    }
                    g.1.extend(viol);
                    live.fetch_sub(1, Ordering::Relaxed);
                })
                .expect("worker thread");
        }
        // Watchdog. A case normally takes microseconds.
        let (current, live, hang) = (&current, &live, &hang);
        sc.spawn(move || {
            let mut seen: Vec<(u64, Instant)> =
                current.iter().map(|_| (IDLE, Instant::now())).collect();
            while live.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                for (w, c) in current.iter().enumerate() {
                    let v = c.load(Ordering::Relaxed);
                    if v != seen[w].0 {
                        seen[w] = (v, Instant::now());
                    } else if v != IDLE && seen[w].1.elapsed() > hang_cap {
                        *hang.lock().unwrap() = Some(v);
                        // The worker cannot be interrupted: tell the parent and leave.
                        println!("HANG index={v}");
                        let _ = std::io::stdout().flush();
                        std::process::exit(4);
                    }
                }
            }
        });
    });
    let (cov, mut violations) = all.into_inner().unwrap();
    violations.sort_by_key(|v| v.0);
    let hang = *hang.lock().unwrap();
    Outcome {
        cov,
        violations,
        completed: !timed_out.load(Ordering::Relaxed),
        hang,
    }
}
