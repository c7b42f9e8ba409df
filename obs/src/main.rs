//! Prints what the library observably does for a deterministic stream of
//! inputs. Built once per feature set and profile; the outputs have to agree.
//!
//! usage: vobs stream FROM COUNT OUT   (24 bytes per case: core hash, alloc hash, bytes observed)
//!        vobs show INDEX              (the observations themselves)

#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/dict.rs"]
mod dict;
#[path = "../../harness/src/rng.rs"]
mod rng;
mod engine {
    //! The part of the engine that the generators need.
    pub use crate::rng::Rng;
}

mod observe;
use observe::observe;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.iter().map(String::as_str).collect::<Vec<_>>().as_slice() {
        ["stream", from, count, out] => {
            use std::io::Write as _;
            let (from, count): (u64, u64) = (from.parse().unwrap(), count.parse().unwrap());
            let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
            for i in from..from + count {
                let (a, b, _) = observe(seed, i, false);
                for v in [a.hash, if cfg!(feature = "alloc") { b.hash } else { 0 }, a.len + b.len] {
                    f.write_all(&v.to_le_bytes()).unwrap();
                }
            }
            f.flush().unwrap();
        }
        ["show", i] => {
            let (a, b, c) = observe(seed, i.parse().unwrap(), true);
            println!("INPUT {:?} base {:?} host {:?} template {:?} raw {:?}", c.s, c.base, c.host, c.tpl, c.raw);
            println!("{}", a.text.unwrap());
            if cfg!(feature = "alloc") {
                println!("ALLOC\n{}", b.text.unwrap());
            }
        }
        _ => std::process::exit(3),
    }
}
