//! C01: the estimate is a function of the set of values inserted.
use crate::gen::*;
use crate::hashers::Sm;
use crate::probe::{same, Probe};
use crate::runner::{Ctx, Env};
use crate::sk::{Kind, Sketch, R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    p: u8,
    sets: Vec<Vals>,
    order: u8,
    perm: u64,
    /// Out of 4: how often a value is repeated.
    repeat: u8,
    /// Estimates in between: positions, in 1/1000 of the history.
    counts: Vec<u16>,
    /// A window of estimates after every insertion.
    window: (u16, u16),
    /// Compare with a fresh sketch of the prefix there.
    checkpoints: Vec<u16>,
}

fn strategy(max: u32) -> BoxedStrategy<Case> {
    kind_strategy()
        .prop_flat_map(|k| (Just(k), p_strategy(k)))
        .prop_flat_map(move |(k, p)| {
            let size = Size { max };
            let pos = || 0u16..=1000;
            (
                Just(k),
                Just(p),
                proptest::collection::vec(vals_strategy(k, p, size), 1..4),
                0u8..4,
                any::<u64>(),
                0u8..4,
                proptest::collection::vec(pos(), 0..6),
                (pos(), prop_oneof![Just(0u16), 0u16..=300]),
                proptest::collection::vec(pos(), 0..3),
            )
        })
        .prop_map(|(kind, p, sets, order, perm, repeat, counts, window, checkpoints)| Case {
            kind, p, sets, order, perm, repeat, counts, window, checkpoints,
        })
        .boxed()
}

fn fresh<S: Sketch>(p: u8, v: &[u64]) -> R<S> {
    let mut u = v.to_vec();
    u.sort_unstable();
    u.dedup();
    let mut s = S::mk(p)?;
    s.put_all(&u);
    Ok(s)
}

fn test<S: Sketch>(c: &Case, ctx: &mut Ctx) -> R<()> {
    let p = c.p;
    let mut vals: Vec<u64> = c.sets.iter().flat_map(|v| v.expand(c.kind, p)).collect();
    let mut uniq = vals.clone();
    uniq.sort_unstable();
    uniq.dedup();
    // The history: repetitions, then an order.
    let mut s = Sm::new(c.perm);
    let n = vals.len();
    for i in 0..n {
        if s.below(4) < c.repeat as u64 {
            vals.push(vals[i]);
        }
    }
    match c.order {
        0 => {}
        1 => shuffle(&mut vals, c.perm),
        2 => vals.sort_unstable_by(|a, b| b.cmp(a)),
        _ => {
            vals.sort_unstable();
            let k = vals.len() / 2;
            vals.rotate_left(k);
        }
    }
    let len = vals.len();
    let at = |x: u16| (x as usize * len) / 1000;
    let mut counts: Vec<usize> = c.counts.iter().map(|x| at(*x)).collect();
    let wlen = (c.window.1 as usize).min(if p > 12 { 4 } else { 300 });
    counts.extend((0..wlen).map(|i| at(c.window.0) + i));
    let cps: Vec<usize> = c.checkpoints.iter().map(|x| at(*x)).collect();
    counts.sort_unstable();
    let mut cand = S::mk(p)?;
    let mut ci = 0;
    for i in 0..=len {
        while ci < counts.len() && counts[ci] <= i {
            if counts[ci] == i {
                let (a, b) = (cand.est(), cand.est());
                same("an estimate asked for twice", a, b)?;
                ctx.add("interleaved_counts", 1);
            }
            ci += 1;
        }
        if cps.contains(&i) {
            let mut f: S = fresh(p, &vals[..i])?;
            same(&format!("history of {} vs. its set", i), cand.est(), f.est())?;
        }
        if i < len {
            cand.put(vals[i]);
        }
    }
    let mut f: S = fresh(p, &uniq)?;
    let (a, b) = (cand.est(), f.est());
    same("history vs. its set", a, b)?;
    same("an estimate asked for twice", a, cand.est())?;
    // Inserting everything again changes nothing.
    for h in uniq.iter().take(20000) {
        cand.put(*h);
    }
    same("after inserting again", a, cand.est())?;
    Probe::plan(c.kind, p, &uniq, c.perm).compare("history vs. its set", &mut cand, &mut f)?;
    ctx.nontrivial = uniq.len() >= 2 && (len > uniq.len() || c.order != 3);
    ctx.class(format!("{:?}/{}", c.kind, crate::hist::rep(c.kind, p, &uniq)));
    ctx.class(format!("p{:02}", p));
    if len > uniq.len() {
        ctx.class("with repetition");
    }
    Ok(())
}

/// A small set of values inserted again and again: many operations, as a
/// counter of them would notice.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    kind: Kind,
    p: u8,
    sets: Vec<Vals>,
    inserts: u32,
    /// An estimate about every so many insertions, work permitting.
    every: u32,
}

fn long_strategy() -> BoxedStrategy<Long> {
    kind_strategy()
        .prop_flat_map(|k| (Just(k), prop_oneof![3 => 4u8..=6, 2 => p_strategy(k)]))
        .prop_flat_map(|(kind, p)| {
            let ops = prop_oneof![2 => (1u32 << 24)..(3 << 23), 1 => (1u32 << 15)..(1 << 24)];
            (Just(kind), Just(p), proptest::collection::vec(vals_strategy(kind, p, Size { max: 4000 }), 1..3), ops, 1u32..100_000)
        })
        .prop_map(|(kind, p, sets, inserts, every)| Long { kind, p, sets, inserts, every })
        .boxed()
}

fn long<S: Sketch>(c: &Long, ctx: &mut Ctx) -> R<()> {
    let mut vals: Vec<u64> = c.sets.iter().flat_map(|v| v.expand(c.kind, c.p)).collect();
    vals.truncate(20_000);
    let mut f: S = fresh(c.p, &vals)?;
    let want = f.est();
    // At most 2^22 estimates, and 2^28 registers or codes looked at for them.
    let cost = ((1u64 << c.p) + vals.len() as u64).max(64);
    let every = (c.every as u64).max(c.inserts as u64 * cost >> 28).max(c.inserts as u64 >> 22).max(1);
    let mut s = S::mk(c.p)?;
    let (mut next, mut ests) = (every, 0u32);
    let n = if vals.is_empty() { 0 } else { c.inserts };
    for i in 0..n as u64 {
        s.put(vals[(i % vals.len() as u64) as usize]);
        if i == next {
            next += every;
            ests += 1;
            let e = s.est();
            if i >= vals.len() as u64 {
                same(&format!("after {} insertions of {} values", i + 1, vals.len()), e, want)?;
            }
        }
    }
    if n as usize >= vals.len() {
        same(&format!("after {} insertions and {} estimates", n, ests), s.est(), want)?;
        Probe::plan(c.kind, c.p, &vals, c.every as u64).compare("long history vs. its set", &mut s, &mut f)?;
    }
    ctx.add("insertions", n as u64);
    ctx.class(format!("long {:?}", c.kind));
    ctx.nontrivial = n >= 1 << 24;
    Ok(())
}

pub fn run(e: &mut Env) {
    e.campaign("C01", "history", 24000, 12, || strategy(400_000), |c: &Case, x| {
        with_kind!(c.kind, test(c, x))
    });
    e.campaign("C01", "long", 48, 12, long_strategy, |c: &Long, x| {
        with_kind!(c.kind, long(c, x))
    });
}
