//! C15: the crate without std against the std build.
use crate::program::*;
use crate::runner::{Ctx, Env};
use crate::sk::Kind;
use crate::sweep::{sweeps, Sweep};
use proptest::prelude::*;

pub fn run(e: &mut Env) {
    // no_std programs, comma separated, with and without const-loop.
    let peers: Vec<Vec<String>> = std::env::var("HLLCHECK_NOSTD")
        .expect("HLLCHECK_NOSTD")
        .split(',')
        .map(|s| vec![s.to_string()])
        .collect();
    // The logarithm of every ratio of registers to empty registers.
    let all = sweeps(Kind::PF, e.seed, if e.thorough { 64 } else { 31 });
    e.sweep("C15", "sweep", all, |c: &Sweep, x: &mut Ctx| {
        let low = sweep(c);
        let here = match std::panic::catch_unwind(|| exec::<crate::sk::Pf>(&low)) {
            Ok(h) => h,
            Err(_) => return Ok(()),
        };
        for p in &peers {
            let t = ask(p, &encode(c.kind, &low)).map_err(|e| format!("{}: {}", p[0], e))?;
            compare_closely("std vs. no_std", &here, &t)?;
        }
        x.add("small_range_estimates", c.n as u64);
        x.class(format!("sweep p{:02}", c.p));
        x.nontrivial = true;
        Ok(())
    });
    e.campaign(
        "C15",
        "differential",
        100000,
        12,
        || program_strategy(Just(Kind::PF).boxed(), 150_000),
        |c: &Program, x: &mut Ctx| {
            let low = c.lower(false);
            let req = encode(c.kind, &low);
            let there: Vec<_> = peers.iter().map(|p| ask(p, &req)).collect();
            let here = match std::panic::catch_unwind(|| exec::<crate::sk::Pf>(&low)) {
                Ok(h) => h,
                Err(_) => return Ok(()),
            };
            for (t, p) in there.into_iter().zip(&peers) {
                let t = t.map_err(|e| format!("{}: {}", p[0], e))?;
                compare_closely("std vs. no_std", &here, &t)?;
            }
            let two32 = crate::model::TWO32;
            for o in &here {
                if let Out::Est(e) = o {
                    let m = (1u64 << c.p) as f64;
                    x.add(
                        if *e > two32 / 30.0 { "large_range_estimates" } else if *e <= 2.5 * m { "small_range_estimates" } else { "middle_range_estimates" },
                        1,
                    );
                }
            }
            x.class(format!("p{:02}", c.p));
            x.nontrivial = here.iter().any(|o| matches!(o, Out::Est(e) if *e != 0.0));
            Ok(())
        },
    );
}
