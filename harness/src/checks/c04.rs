//! C04: HyperLogLogPF against the published estimator.
use crate::gen::*;
use crate::hashers::Sm;
use crate::model::{pf_estimate, Regs};
use crate::probe::Probe;
use crate::runner::{Ctx, Env};
use crate::sk::{Kind, Pf, Sketch, R};
use crate::sweep::{sweeps, Sweep};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    p: u8,
    sets: Vec<Vals>,
    /// Number of comparisons spread over the insertions of each set.
    looks: u16,
    seed: u64,
}

fn strategy(max: u32) -> BoxedStrategy<Case> {
    p_strategy(Kind::PF)
        .prop_flat_map(move |p| {
            let m = 1u32 << p;
            let mr = Kind::PF.max_rank(p);
            let skip = || proptest::collection::vec(0..m, 0..4);
            let set = prop_oneof![
                6 => vals_strategy(Kind::PF, p, Size { max }),
                // Around the end of the small range.
                3 => (any::<u64>(), m..=(4 * m)).prop_map(|(seed, n)| Vals::Uniform { seed, n }),
                // Registers full or nearly so, few empty ones.
                2 => (any::<u64>(), 1u32..=4, skip()).prop_map(|(seed, rank, skip)| Vals::Fill { seed, rank, skip }),
                // The large range and beyond.
                4 => (any::<u64>(), (26 - p as u32)..=mr, skip()).prop_map(|(seed, rank, skip)| Vals::Fill { seed, rank, skip }),
                2 => (any::<u64>(), m..=(4 * m), (24 - p as u32)..=mr, (24 - p as u32)..=mr).prop_map(move |(seed, n, a, b)| {
                    Vals::Ranked { seed, n, ilo: 0, ihi: m - 1, rlo: a.min(b), rhi: a.max(b) }
                }),
            ];
            (Just(p), proptest::collection::vec(set, 1..4), 1u16..60, any::<u64>())
        })
        .prop_map(|(p, sets, looks, seed)| Case { p, sets, looks, seed })
        .boxed()
}

fn look(s: &mut Pf, g: &Regs, ctx: &mut Ctx, at: &str) -> R<()> {
    let (a, v) = (pf_estimate(g), s.est());
    ctx.class(a.regime);
    if !a.ok(v) {
        return Err(format!(
            "precision {}, {}: estimate {} but the published one is {} ({} empty registers, harmonic mean {})",
            g.p, at, v, a.show(), g.zeros(), g.raw()
        ));
    }
    Ok(())
}

fn test(c: &Case, ctx: &mut Ctx) -> R<()> {
    let p = c.p;
    let mut s = Pf::mk(p)?;
    let mut g = Regs::new(Kind::PF, p);
    let mut all = Vec::new();
    look(&mut s, &g, ctx, "empty")?;
    let mut r = Sm::new(c.seed);
    let m = g.m() as f64;
    // Estimates are cheap where there are few registers.
    let extra = if p <= 8 { 40 } else { 4 };
    let mut near = 0;
    for set in &c.sets {
        let v = set.expand(Kind::PF, p);
        let every = (v.len() as u64 / c.looks as u64).max(1);
        let mut next = r.below(every) + 1;
        for (i, h) in v.iter().enumerate() {
            let before = g.zeros();
            s.put(*h);
            g.put(*h);
            let mut due = i as u64 == next;
            // The last empty register, and the boundary of the small range.
            if g.zeros() != before && near < extra {
                let b = g.zeros() <= 2 || {
                    let q = (i & 7 == 0 || p <= 6).then(|| g.raw() / (2.5 * m));
                    q.is_some_and(|q| q > 0.97 && q < 1.03)
                };
                if b {
                    near += 1;
                    due = true;
                    ctx.add("looks_near_a_boundary", 1);
                }
            }
            if due {
                next = i as u64 + 1 + r.below(2 * every);
                look(&mut s, &g, ctx, "during insertion")?;
                ctx.add("looks", 1);
            }
        }
        all.extend(v);
        look(&mut s, &g, ctx, "after insertion")?;
    }
    // Individual registers.
    let pr = Probe::plan(Kind::PF, p, &all, c.seed);
    s.put_all(&pr.fill);
    g.put_all(&pr.fill);
    look(&mut s, &g, ctx, "probing registers")?;
    for h in &pr.steps {
        s.put(*h);
        g.put(*h);
        look(&mut s, &g, ctx, "probing registers")?;
    }
    ctx.classes.sort();
    ctx.classes.dedup();
    ctx.class(format!("p{:02}", p));
    ctx.nontrivial = all.len() >= 2;
    Ok(())
}

fn sweep(c: &Sweep, ctx: &mut Ctx) -> R<()> {
    let (first, rest) = c.values();
    let mut s = Pf::mk(c.p)?;
    let mut g = Regs::new(Kind::PF, c.p);
    s.put_all(&first);
    g.put_all(&first);
    for h in &rest {
        s.put(*h);
        g.put(*h);
        look(&mut s, &g, ctx, "filling registers")?;
    }
    ctx.classes.clear();
    ctx.add("looks_at_every_number_of_empty_registers", rest.len() as u64);
    ctx.class(format!("sweep p{:02}", c.p));
    ctx.nontrivial = true;
    Ok(())
}

pub fn run(e: &mut Env) {
    let all = sweeps(Kind::PF, e.seed, 64);
    e.sweep("C04", "sweep", all, |c: &Sweep, x| sweep(c, x));
    e.campaign("C04", "estimate", 80000, 12, || strategy(300_000), |c: &Case, x| test(c, x));
}
