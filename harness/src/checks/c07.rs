//! C07: serialization preserves a sketch at any point of its life.
use crate::gen::*;
use crate::hist::*;
use crate::probe::{same, Probe};
use crate::runner::{Ctx, Env};
use crate::sk::{Fmt, Kind, Sketch, R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    p: u8,
    pre: Vec<Step>,
    fmts: Vec<Fmt>,
    post: Vec<Step>,
    seed: u64,
}

fn strategy(max: u32) -> BoxedStrategy<Case> {
    kind_strategy()
        .prop_flat_map(|k| {
            // The bytes of a dense sketch grow with 2^p: cheaper precisions.
            (Just(k), prop_oneof![20 => 4u8..=8, 8 => 9u8..=12, 2 => 13u8..=k.max_p()])
        })
        .prop_flat_map(move |(kind, p)| {
            let st = move |n| {
                proptest::collection::vec(step_strategy(kind, p, Size { max }, MERGES), 0..n)
            };
            (st(5), proptest::collection::vec(fmt_strategy(), 1..3), st(5), any::<u64>())
                .prop_map(move |(pre, fmts, post, seed)| Case { kind, p, pre, fmts, post, seed })
        })
        .boxed()
}

fn test<S: Sketch>(c: &Case, ctx: &mut Ctx) -> R<()> {
    let p = c.p;
    let mut skip = vec![];
    let mut twin = apply_all(S::mk(p)?, p, &c.pre, &mut skip)?;
    let mut twin2 = apply_all(S::mk(p)?, p, &c.pre, &mut skip)?;
    let mut s = apply_all(S::mk(p)?, p, &c.pre, &mut skip)?;
    // The decoded copy (re-encoded in every format in turn) and the original.
    let mut it = c.fmts.iter();
    let (mut orig, mut copy) = s.trip(*it.next().unwrap())?;
    for f in it {
        copy = copy.trip(*f)?.1;
    }
    if c.seed & 1 == 1 {
        let t = twin.est();
        same("decoded sketch", copy.est(), t)?;
        s = orig;
        same("original after serializing", s.est(), t)?;
        orig = s;
    }
    let (mut oc, mut ot, mut oo, mut ot2) = (vec![], vec![], vec![], vec![]);
    copy = apply_all(copy, p, &c.post, &mut oc)?;
    twin = apply_all(twin, p, &c.post, &mut ot)?;
    same_obs("decoded sketch, later", &oc, &ot)?;
    orig = apply_all(orig, p, &c.post, &mut oo)?;
    twin2 = apply_all(twin2, p, &c.post, &mut ot2)?;
    same_obs("original after serializing, later", &oo, &ot2)?;
    // Merge source and destination.
    let mut m1 = S::mk(p)?;
    m1.join(&copy).map_err(|e| format!("merging a decoded sketch: {:?}", e))?;
    same("decoded sketch as merge source", m1.est(), twin.est())?;
    same("decoded sketch, finally", copy.est(), twin.est())?;
    // Once more at the end of the history.
    let (_, mut last) = copy.trip(c.fmts[0])?;
    same("decoded again", last.est(), twin.est())?;
    let mut v = values(c.kind, p, &c.pre);
    let pre = rep(c.kind, p, &v);
    v.extend(values(c.kind, p, &c.post));
    let pr = Probe::plan(c.kind, p, &v, c.seed);
    pr.compare("decoded sketch", &mut last, &mut twin)?;
    pr.compare("original after serializing", &mut orig, &mut twin2)?;
    ctx.nontrivial = pre != "empty";
    ctx.class(format!("{:?}/{} at round trip", c.kind, pre));
    for f in &c.fmts {
        ctx.class(format!("{:?}", f));
    }
    Ok(())
}

pub fn run(e: &mut Env) {
    e.campaign("C07", "round-trip", 30000, 12, || strategy(150_000), |c: &Case, x| {
        with_kind!(c.kind, test(c, x))
    });
}
