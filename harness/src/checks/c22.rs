//! C22: sketches stored by the crate as it was remain readable.
use crate::gen::*;
use crate::hist::*;
use crate::probe::{same, Probe};
use crate::runner::{Ctx, Env};
use crate::sk::{Kind, OldPf, OldPl, Pf, Pl, Sketch, R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    p: u8,
    pre: Vec<Step>,
    fmt: u8,
    post: Vec<Step>,
    seed: u64,
}

fn strategy(max: u32) -> BoxedStrategy<Case> {
    kind_strategy()
        .prop_flat_map(|k| (Just(k), prop_oneof![20 => 4u8..=8, 8 => 9u8..=12, 2 => 13u8..=k.max_p()]))
        .prop_flat_map(move |(kind, p)| {
            let st = move |n| proptest::collection::vec(step_strategy(kind, p, Size { max }, MERGES), 0..n);
            (st(5), 0u8..3, st(4), any::<u64>())
                .prop_map(move |(pre, fmt, post, seed)| Case { kind, p, pre, fmt, post, seed })
        })
        .boxed()
}

fn test<Old: Sketch, S: Sketch>(c: &Case, ctx: &mut Ctx) -> R<()> {
    let p = c.p;
    let mut skip = vec![];
    let bytes = apply_all(Old::mk(p)?, p, &c.pre, &mut skip)?.export(c.fmt)?;
    let read = || S::import(c.fmt, &bytes).map_err(|e| format!("precision {}: a stored sketch is not read: {}", p, e));
    let (mut s, mut s2) = (read()?, read()?);
    let mut twin = apply_all(S::mk(p)?, p, &c.pre, &mut skip)?;
    if c.seed & 1 == 1 {
        same("stored sketch", s.est(), twin.est())?;
    }
    let (mut a, mut b) = (vec![], vec![]);
    s = apply_all(s, p, &c.post, &mut a)?;
    twin = apply_all(twin, p, &c.post, &mut b)?;
    same_obs("stored sketch, later", &a, &b)?;
    // Merge source and destination.
    let mut into: S = S::mk(p)?;
    into.join(&s).map_err(|e| format!("merging a stored sketch: {:?}", e))?;
    same("stored sketch as merge source", into.est(), twin.est())?;
    s2.join(&twin).map_err(|e| format!("merging into a stored sketch: {:?}", e))?;
    same("stored sketch as merge destination", s2.est(), twin.est())?;
    same("stored sketch, finally", s.est(), twin.est())?;
    let mut v = values(c.kind, p, &c.pre);
    let pre = rep(c.kind, p, &v);
    v.extend(values(c.kind, p, &c.post));
    Probe::plan(c.kind, p, &v, c.seed).compare("stored sketch", &mut s, &mut twin)?;
    ctx.nontrivial = pre != "empty";
    ctx.class(format!("{:?}/{} when stored", c.kind, pre));
    ctx.class(["json", "bincode", "cbor"][c.fmt as usize % 3].to_string());
    Ok(())
}

pub fn run(e: &mut Env) {
    e.campaign("C22", "stored", 60000, 12, || strategy(150_000), |c: &Case, x| match c.kind {
        Kind::PF => test::<OldPf, Pf>(c, x),
        Kind::Plus => test::<OldPl, Pl>(c, x),
    });
}
