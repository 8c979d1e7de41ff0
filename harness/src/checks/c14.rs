//! C14: the const-loop build against the default build.
//! C25: the build without debug assertions and overflow checks against the one with them.
use crate::program::*;
use crate::runner::{Ctx, Env};
use crate::sk::Kind;
use crate::sweep::{sweeps, Sweep};
use proptest::prelude::*;

pub fn run(e: &mut Env) {
    pair(e, "C14", "default vs. const-loop");
}

pub fn profiles(e: &mut Env) {
    pair(e, "C25", "debug vs. release");
}

fn pair(e: &mut Env, id: &'static str, what: &'static str) {
    let peer = vec![std::env::var("HLLCHECK_PEER").expect("HLLCHECK_PEER"), "serve".to_string()];
    let full = if e.thorough { 34 } else { 30 };
    let mut all = sweeps(Kind::PF, e.seed, full);
    all.extend(sweeps(Kind::Plus, e.seed, full));
    e.sweep(id, "sweep", all, |c: &Sweep, x: &mut Ctx| {
        let low = sweep(c);
        let there = ask(&peer, &encode(c.kind, &low));
        let here = std::panic::catch_unwind(|| match c.kind {
            Kind::PF => exec::<crate::sk::Pf>(&low),
            Kind::Plus => exec::<crate::sk::Pl>(&low),
        });
        if let Ok(here) = here {
            compare(what, &here, &there?)?;
        }
        x.add("estimates_compared", c.n as u64);
        x.class(format!("sweep {:?} p{:02}", c.kind, c.p));
        x.nontrivial = true;
        Ok(())
    });
    e.campaign(
        id,
        "differential",
        40000,
        12,
        || program_strategy(prop_oneof![2 => Just(Kind::PF), 3 => Just(Kind::Plus)].boxed(), 150_000),
        |c: &Program, x: &mut Ctx| {
            let low = c.lower(true);
            let there = ask(&peer, &encode(c.kind, &low));
            let here = std::panic::catch_unwind(|| match c.kind {
                Kind::PF => exec::<crate::sk::Pf>(&low),
                Kind::Plus => exec::<crate::sk::Pl>(&low),
            });
            let here = match here {
                Ok(h) => h,
                // Misbehaviour common to both builds is not a difference.
                Err(_) if there.is_err() => return Ok(()),
                Err(_) => return Err(format!("{}: only the first panics", what)),
            };
            let there = there?;
            compare(what, &here, &there)?;
            x.class(format!("{:?} p{:02}", c.kind, c.p));
            x.add("estimates_compared", here.iter().filter(|o| matches!(o, Out::Est(_))).count() as u64);
            x.nontrivial = here.iter().any(|o| matches!(o, Out::Est(e) if *e != 0.0));
            Ok(())
        },
    );
}
