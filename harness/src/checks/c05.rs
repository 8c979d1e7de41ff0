//! C05: dense HyperLogLogPlus against the published HLL++ estimator.
use crate::gen::*;
use crate::hashers::Sm;
use crate::model::{plus_estimate, sparse_cap, Regs, Sparse, THRESHOLD};
use crate::probe::Probe;
use crate::runner::{Ctx, Env};
use crate::sk::{Kind, Pl, Sketch, R};
use crate::sweep::{sweeps, Sweep};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    p: u8,
    sets: Vec<Vals>,
    looks: u16,
    seed: u64,
}

const K: Kind = Kind::Plus;

fn strategy(max: u32, lo: u8, hi: u8) -> BoxedStrategy<Case> {
    (lo..=hi)
        .prop_flat_map(move |p| {
            let m = 1u32 << p;
            let mr = K.max_rank(p);
            let skip = || proptest::collection::vec(0..m, 0..4);
            let dense = prop_oneof![
                4 => (any::<u64>(), m..=(7 * m)).prop_map(|(seed, n)| Vals::Uniform { seed, n }),
                // Low harmonic means: many registers at 1 or 2.
                3 => (any::<u64>(), 1u32..=3, 64u32..=256).prop_map(|(seed, max, keep256)| Vals::Cover { seed, max, keep256 }),
                2 => (any::<u64>(), 1u32..=4, skip()).prop_map(|(seed, rank, skip)| Vals::Fill { seed, rank, skip }),
            ];
            let set = prop_oneof![
                5 => vals_strategy(K, p, Size { max }),
                4 => (any::<u64>(), (m / 2)..=(7 * m)).prop_map(|(seed, n)| Vals::Uniform { seed, n }),
                2 => (any::<u64>(), 1..=mr, skip()).prop_map(|(seed, rank, skip)| Vals::Fill { seed, rank, skip }),
                3 => (any::<u64>(), 1u32..=4, 64u32..=256).prop_map(|(seed, max, keep256)| Vals::Cover { seed, max, keep256 }),
                2 => (any::<u64>(), 1..=(3 * m), 1u32..=4).prop_map(move |(seed, n, r)| {
                    Vals::Ranked { seed, n, ilo: 0, ihi: m - 1, rlo: 1, rhi: r }
                }),
            ];
            (Just(p), dense, proptest::collection::vec(set, 0..3), 1u16..120, any::<u64>())
        })
        .prop_map(|(p, d, rest, looks, seed)| {
            let mut sets = rest;
            sets.insert(if sets.is_empty() { 0 } else { seed as usize % 2 }, d);
            Case { p, sets, looks, seed }
        })
        .boxed()
}

fn look(s: &mut Pl, g: &Regs, ctx: &mut Ctx, at: &str) -> R<()> {
    let (a, v) = (plus_estimate(g), s.est());
    ctx.class(a.regime);
    if let Some(k) = a.segment {
        ctx.marks.push((g.p as u64) << 16 | k as u64);
    }
    if !a.ok(v) {
        return Err(format!(
            "precision {}, {}: estimate {} but the published one is {} ({} empty registers, harmonic mean {})",
            g.p, at, v, a.show(), g.zeros(), g.raw()
        ));
    }
    Ok(())
}

fn test(c: &Case, ctx: &mut Ctx) -> R<()> {
    let p = c.p;
    let mut s = Pl::mk(p)?;
    let mut g = Regs::new(K, p);
    let mut all: Vec<u64> = Vec::new();
    let m = g.m() as f64;
    // Comparison starts once the list of codes would be far too large.
    let mut sp = Some(Sparse::new(p));
    let mut r = Sm::new(c.seed);
    // Number of empty registers at the linear counting threshold.
    let zt = m * (-THRESHOLD[(p - 4) as usize] / m).exp();
    let extra = if p <= 8 { 60 } else { 6 };
    let mut near = 0;
    for set in &c.sets {
        let v = set.expand(K, p);
        let every = (v.len() as u64 / c.looks as u64).max(1);
        let mut next = r.below(every) + 1;
        for (i, h) in v.iter().enumerate() {
            let before = g.zeros();
            s.put(*h);
            g.put(*h);
            if let Some(x) = &mut sp {
                x.put(*h);
                if x.bytes > 2 * sparse_cap(p) + 8 {
                    sp = None;
                    s.est();
                }
                continue;
            }
            let mut due = i as u64 == next;
            if near < extra {
                let z = g.zeros();
                let mut b = z != before && ((z as f64 - zt).abs() <= 2.5 || z <= 1);
                if !b && (i & 7 == 0 || p <= 6) {
                    let q = g.raw() / (5.0 * m);
                    b = q > 0.98 && q < 1.02;
                }
                if b {
                    near += 1;
                    due = true;
                    ctx.add("looks_near_a_boundary", 1);
                }
            }
            if due {
                next = i as u64 + 1 + r.below(2 * every);
                look(&mut s, &g, ctx, "during insertion")?;
                ctx.add("looks", 1);
            }
        }
        all.extend(v);
        if sp.is_none() {
            look(&mut s, &g, ctx, "after insertion")?;
        }
    }
    if sp.is_none() {
        let pr = Probe::plan(K, p, &all, c.seed);
        s.put_all(&pr.fill);
        g.put_all(&pr.fill);
        look(&mut s, &g, ctx, "probing registers")?;
        for h in &pr.steps {
            s.put(*h);
            g.put(*h);
            look(&mut s, &g, ctx, "probing registers")?;
        }
    }
    ctx.classes.sort();
    ctx.classes.dedup();
    ctx.nontrivial = sp.is_none();
    ctx.class(format!("p{:02}{}", p, if sp.is_none() { "" } else { " never dense" }));
    Ok(())
}

fn sweep(c: &Sweep, ctx: &mut Ctx) -> R<()> {
    let (first, rest) = c.values();
    let mut s = Pl::mk(c.p)?;
    let mut g = Regs::new(K, c.p);
    s.put_all(&first);
    s.est();
    g.put_all(&first);
    for h in &rest {
        let before = g.zeros();
        s.put(*h);
        g.put(*h);
        if g.zeros() != before {
            look(&mut s, &g, ctx, "filling registers")?;
            ctx.add("looks_at_every_number_of_empty_registers", 1);
        }
    }
    ctx.classes.clear();
    ctx.class(format!("sweep p{:02}", c.p));
    ctx.nontrivial = true;
    Ok(())
}

/// Uniform hashes through all of the bias table and past it.
fn whole_tables(seed: u64, times: u64) -> Vec<Case> {
    let mut r = Sm::new(seed ^ 0x7ab1e);
    let mut v = vec![];
    for p in (K.min_p()..=K.max_p()).rev() {
        let m = 1u32 << p;
        for _ in 0..times * if p <= 10 { 8 } else { 1 } {
            let sets = vec![Vals::Uniform { seed: r.next(), n: 8 * m }];
            v.push(Case { p, sets, looks: 2500, seed: r.next() });
        }
    }
    v
}

pub fn run(e: &mut Env) {
    let all = sweeps(K, e.seed, if e.thorough { 36 } else { 31 });
    e.sweep("C05", "sweep", all, |c: &Sweep, x| sweep(c, x));
    let all = whole_tables(e.seed, if e.thorough { 12 } else { 1 });
    e.sweep("C05", "tables", all, |c: &Case, x| test(c, x));
    let n = e.stats.marks.len() as u64;
    e.stats.sums.insert("bias_table_segments_covered_by_uniform_hashes".into(), n);
    e.campaign("C05", "small", 200000, 12, || strategy(20_000, 4, 9), |c: &Case, x| test(c, x));
    e.campaign("C05", "medium", 24000, 12, || strategy(60_000, 10, 13), |c: &Case, x| test(c, x));
    e.campaign("C05", "large", 900, 12, || strategy(300_000, 14, 18), |c: &Case, x| test(c, x));
    let n = e.stats.marks.len() as u64;
    e.stats.sums.insert("bias_table_segments_covered".into(), n);
}
