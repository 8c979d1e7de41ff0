//! hllcheck run ID --tier quick|thorough --seed N --out FILE --replays DIR
//! hllcheck replay FILE
//! hllcheck serve
//!
//! Each check is behind a cargo feature of its own, so that a run compiles only
//! what it needs.

#![allow(dead_code, unused_imports, unused_macros)]

#[macro_use]
mod sk;
mod alloc;
mod checks;
#[cfg(feature = "c23")]
mod faults;
mod gen;
mod hashers;
mod hist;
mod model;
mod probe;
mod program;
mod runner;
mod sweep;
mod tables;
mod wire;

use runner::Env;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

const VARIANT: &str = if cfg!(feature = "cl") {
    "const-loop"
} else if cfg!(feature = "plain") {
    "plain"
} else {
    "default"
};

fn check(id: &str) -> Option<fn(&mut Env)> {
    Some(match id {
        #[cfg(feature = "c01")]
        "C01" => checks::c01::run,
        #[cfg(feature = "c02")]
        "C02" => checks::c02::run,
        #[cfg(feature = "c03")]
        "C03" => checks::c03::run,
        #[cfg(feature = "c04")]
        "C04" => checks::c04::run,
        #[cfg(feature = "c05")]
        "C05" => checks::c05::run,
        #[cfg(feature = "c06")]
        "C06" => checks::c06::run,
        #[cfg(feature = "c07")]
        "C07" => checks::c07::run,
        #[cfg(feature = "c08")]
        "C08" => checks::c08::run,
        #[cfg(feature = "c09")]
        "C09" => checks::c09::run,
        #[cfg(feature = "c10")]
        "C10" => checks::c10::run,
        #[cfg(feature = "c11")]
        "C11" => checks::c11::run,
        #[cfg(feature = "c12")]
        "C12" => checks::c12::run,
        #[cfg(feature = "c13")]
        "C13" => checks::c13::run,
        #[cfg(feature = "c14")]
        "C14" => checks::c14::run,
        #[cfg(feature = "c15")]
        "C15" => checks::c15::run,
        #[cfg(feature = "c16")]
        "C16" => checks::c16::run,
        #[cfg(feature = "c19")]
        "C19" => checks::c19::run,
        #[cfg(feature = "c20")]
        "C20" => checks::c20::run,
        #[cfg(feature = "c26")]
        "C26" => checks::c26::run,
        #[cfg(feature = "c21")]
        "C21" => checks::c21::run,
        #[cfg(feature = "c22")]
        "C22" => checks::c22::run,
        #[cfg(feature = "c23")]
        "C23" => checks::c23::run,
        #[cfg(feature = "c24")]
        "C24" => checks::c24::run,
        #[cfg(feature = "c25")]
        "C25" => checks::c14::profiles,
        _ => return None,
    })
}

#[derive(Clone)]
struct Reporter {
    id: String,
    seed: u64,
    out: Option<String>,
    replays: String,
}

impl Reporter {
    /// Writes the replay file and what the run covered.
    fn write(&self, s: &runner::Stats, wall: f64, failure: Option<(&str, &runner::Failure)>) {
        let replay = failure.map(|(part, f)| {
            std::fs::create_dir_all(&self.replays).unwrap();
            let path = format!("{}/{}-{}-{}-seed{}.json", self.replays, self.id, VARIANT, part, self.seed);
            let v = serde_json::json!({
                "property": self.id, "variant": VARIANT, "part": part,
                "reason": f.reason, "case": f.case,
            });
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
            eprintln!("{} {} [{}]: {}", self.id, part, VARIANT, f.reason);
            path
        });
        if let Some(o) = &self.out {
            let v = serde_json::json!({
                "property": self.id, "variant": VARIANT,
                "evaluations": s.evaluations,
                "nontrivial": s.nontrivial,
                "distinct_nontrivial": s.distinct.len(),
                "classes": s.classes,
                "sums": s.sums,
                "marks": s.marks.len(),
                "samples": s.samples,
                "wall_s": wall,
                "failure": failure.map(|(p, f)| serde_json::json!({
                    "part": p, "reason": f.reason, "replay": replay,
                })),
            });
            std::fs::write(o, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| -> Option<String> {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
    };
    match args.first().map(|s| s.as_str()) {
        Some("serve") => {
            runner::install_panic_hook();
            wire::serve()
        }
        Some("run") => {
            let id = args[1].clone();
            let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let thorough = get("--tier").as_deref() == Some("thorough");
            let scale = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let f = check(&id).expect("unknown check");
            model::tables_sane();
            runner::install_panic_hook();
            let rep = Reporter {
                id,
                seed,
                out: get("--out"),
                replays: get("--replays").unwrap_or_else(|| "replays".into()),
            };
            if let Some(p) = get("--current") {
                runner::record_in(&p);
            }
            let hung = rep.clone();
            let _ = runner::ON_HANG.set(Box::new(move |part, done, f| {
                let s = runner::Stats { evaluations: done, ..Default::default() };
                hung.write(&s, 0.0, Some((part, &f)));
                std::process::exit(1);
            }));
            let mut e = Env::new(seed, thorough, None, scale);
            f(&mut e);
            let failure = e.failure.as_ref().map(|(p, f)| (p.as_str(), f));
            rep.write(&e.stats, e.start.elapsed().as_secs_f64(), failure);
            if failure.is_some() {
                std::process::exit(1);
            }
        }
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
            let id = v["property"].as_str().unwrap();
            let f = check(id).expect("unknown check");
            runner::install_panic_hook();
            std::thread::spawn(|| {
                std::thread::sleep(std::time::Duration::from_secs(runner::HANG_S));
                println!("still fails: no end");
                std::process::exit(1);
            });
            let mut e = Env::new(
                1,
                false,
                Some((v["part"].as_str().unwrap().into(), v["case"].clone())),
                1.0,
            );
            f(&mut e);
            match &e.failure {
                Some((_, f)) => {
                    println!("{} still fails: {}", id, f.reason);
                    std::process::exit(1);
                }
                None => println!("{} passes ({} case)", id, e.stats.evaluations),
            }
        }
        _ => {
            eprintln!("usage: hllcheck run ID ... | replay FILE | serve");
            std::process::exit(2);
        }
    }
}
