//! C12: clones are faithful and independent.
use crate::gen::*;
use crate::hist::*;
use crate::probe::{same, Probe};
use crate::runner::{Ctx, Env};
use crate::sk::{Kind, Sketch, R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    p: u8,
    pre: Vec<Step>,
    a: Vec<Step>,
    b: Vec<Step>,
    /// Not a new sketch becomes the clone, but one of this history.
    over: Option<(u8, Vec<Step>)>,
    /// Count the original right before / both right after cloning; drop the
    /// original early.
    flags: u8,
    seed: u64,
}

fn strategy(max: u32) -> BoxedStrategy<Case> {
    kind_strategy()
        .prop_flat_map(|k| (Just(k), p_strategy(k)))
        .prop_flat_map(move |(kind, p)| {
            let st = move |n| {
                proptest::collection::vec(step_strategy(kind, p, Size { max }, MERGES), 0..n)
            };
            let over = prop_oneof![2 => Just(p), 1 => p_strategy(kind)].prop_flat_map(move |q| {
                (Just(q), proptest::collection::vec(step_strategy(kind, q, Size { max: max / 4 }, MERGES), 0..4))
            });
            (st(5), st(4), st(4), proptest::option::weighted(0.3, over), any::<u8>(), any::<u64>())
                .prop_map(move |(pre, a, b, over, flags, seed)| Case { kind, p, pre, a, b, over, flags, seed })
        })
        .boxed()
}

fn test<S: Sketch>(c: &Case, ctx: &mut Ctx) -> R<()> {
    let p = c.p;
    let mut skip = vec![];
    // Twins that are never cloned.
    let mut t1 = apply_all(S::mk(p)?, p, &c.pre, &mut skip)?;
    let mut t2 = apply_all(S::mk(p)?, p, &c.pre, &mut skip)?;
    let mut s = apply_all(S::mk(p)?, p, &c.pre, &mut skip)?;
    if c.flags & 1 == 1 {
        s.est();
        t1.est();
        t2.est();
    }
    let mut d = match &c.over {
        None => s.dup(),
        Some((q, st)) => {
            let mut d = apply_all(S::mk(*q)?, *q, st, &mut skip)?;
            d.become_dup(&s);
            ctx.class(format!("{:?} {} becomes {}", c.kind, if *q == p { "other" } else { "other precision" }, rep(c.kind, p, &values(c.kind, p, &c.pre))));
            d
        }
    };
    if c.flags & 2 == 2 {
        same("clone vs. original", d.est(), s.est())?;
        t1.est();
        t2.est();
    }
    let (mut o1, mut o2, mut os, mut od) = (vec![], vec![], vec![], vec![]);
    let n = c.a.len().max(c.b.len());
    // Interleaved on the pair, in sequence on the twins.
    let early_drop = c.flags & 4 == 4;
    let mut orig = if early_drop { None } else { Some(s) };
    for i in 0..n {
        if let Some(x) = c.a.get(i) {
            if let Some(o) = orig.take() {
                orig = Some(apply(o, p, x, &mut os)?);
            }
            t1 = apply(t1, p, x, &mut o1)?;
        }
        if let Some(x) = c.b.get(i) {
            d = apply(d, p, x, &mut od)?;
            t2 = apply(t2, p, x, &mut o2)?;
        }
    }
    let pre = values(c.kind, p, &c.pre);
    if let Some(mut o) = orig {
        same_obs("original after cloning", &os, &o1)?;
        same("original after cloning", o.est(), t1.est())?;
        let mut v = pre.clone();
        v.extend(values(c.kind, p, &c.a));
        Probe::plan(c.kind, p, &v, c.seed).compare("original after cloning", &mut o, &mut t1)?;
    }
    same_obs("clone", &od, &o2)?;
    same("clone", d.est(), t2.est())?;
    let mut v = pre.clone();
    v.extend(values(c.kind, p, &c.b));
    Probe::plan(c.kind, p, &v, c.seed).compare("clone", &mut d, &mut t2)?;
    ctx.nontrivial = !pre.is_empty() && (!c.a.is_empty() || !c.b.is_empty());
    ctx.class(format!("{:?}/{} at clone", c.kind, rep(c.kind, p, &pre)));
    Ok(())
}

pub fn run(e: &mut Env) {
    e.campaign("C12", "clone", 20000, 12, || strategy(200_000), |c: &Case, x| {
        with_kind!(c.kind, test(c, x))
    });
}
