//! C13: memory.
use crate::alloc;
use crate::gen::*;
use crate::hist::fmt_strategy;
use crate::runner::{Ctx, Env};
use crate::sk::{Fmt, Kind, Sketch, R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Ins(Vals),
    /// The same values over and over.
    Again(Vals, u8),
    Count,
    MergeIn(Vals, bool),
    /// The same sketch merged in over and over.
    MergeAgain(Vals, u8),
    BadMerge(Vals),
    /// Many different sketches of `n` values each, one after the other.
    MergeMany { seed: u64, n: u32, times: u8 },
    /// One operation that adds nothing new, very often.
    Often(Often, u16),
    Clone,
    Trip(Fmt),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Often {
    Count,
    MergeEmpty,
    MergeSame,
    MergeMismatch,
    Insert(u64),
    InsertCount(u64),
    Clone,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    p: u8,
    ops: Vec<Op>,
    /// The whole list, this many times.
    rounds: u8,
}

fn strategy(max: u32) -> BoxedStrategy<Case> {
    kind_strategy()
        .prop_flat_map(|k| (Just(k), p_strategy(k)))
        .prop_flat_map(move |(kind, p)| {
            let size = Size { max };
            let m = 1u32 << p;
            let v = move || {
                prop_oneof![
                    4 => vals_strategy(kind, p, size),
                    // Nearly as many codes as fit, one byte each.
                    2 => (any::<u64>(), 0u32..(1 << 25), m / 2..=m, 1u32..=64).prop_map(|(seed, start, n, stride)| Vals::Adjacent { seed, start, n, stride }),
                    1 => (any::<u64>(), m..=(20 * m).clamp(m + 1, max.max(m + 2))).prop_map(|(seed, n)| Vals::Uniform { seed, n }),
                ]
            };
            let op = prop_oneof![
                5 => v().prop_map(Op::Ins),
                1 => (vals_strategy(kind, p, Size { max: max.min(3000) }), 2u8..12).prop_map(|(v, n)| Op::Again(v, n)),
                3 => Just(Op::Count),
                3 => (v(), any::<bool>()).prop_map(|(v, b)| Op::MergeIn(v, b)),
                1 => (v(), 2u8..12).prop_map(|(v, n)| Op::MergeAgain(v, n)),
                1 => vals_strategy(kind, p, Size { max: 100 }).prop_map(Op::BadMerge),
                1 => (any::<u64>(), (m / 20).min(max / 20)..=(m / 5).clamp(2, max / 10), 20u8..80).prop_map(|(seed, n, times)| Op::MergeMany { seed, n, times }),
                1 => Just(Op::Clone),
                3 => (prop_oneof![
                    Just(Often::Count), Just(Often::MergeEmpty), Just(Often::MergeSame), Just(Often::MergeMismatch),
                    any::<u64>().prop_map(Often::Insert), any::<u64>().prop_map(Often::InsertCount), Just(Often::Clone),
                ], 1u16..=(((1u32 << 17) / m).clamp(20, 3000)) as u16).prop_map(|(o, n)| Op::Often(o, n)),
                1 => fmt_strategy().prop_map(Op::Trip),
            ];
            (proptest::collection::vec(op, 0..7), 1u8..4)
                .prop_map(move |(ops, rounds)| Case { kind, p, ops, rounds })
        })
        .boxed()
}

fn test<S: Sketch>(c: &Case, ctx: &mut Ctx) -> R<()> {
    let p = c.p;
    let m = 1i64 << p;
    // All hashes exist before measuring.
    let data: Vec<Vec<u64>> = c
        .ops
        .iter()
        .map(|o| match o {
            Op::Ins(v) | Op::Again(v, _) | Op::MergeIn(v, _) | Op::MergeAgain(v, _) => v.expand(c.kind, p),
            Op::BadMerge(v) => v.expand(c.kind, p),
            Op::MergeMany { seed, n, times } => Vals::Uniform { seed: *seed, n: *n * *times as u32 }.expand(c.kind, p),
            _ => vec![],
        })
        .collect();
    let mut codes = std::collections::HashSet::new();
    for o in &c.ops {
        if let Op::Often(Often::Insert(h) | Often::InsertCount(h), _) = o {
            codes.insert(crate::model::code(p.min(18), *h));
        }
    }
    for d in &data {
        for h in d.iter().take(8 * m as usize) {
            codes.insert(crate::model::code(p.min(18), *h));
        }
    }
    let distinct = codes.len() as i64;
    drop(codes);
    let mut all: Vec<u64> = data.iter().flatten().copied().collect();
    for o in &c.ops {
        if let Op::Often(Often::Insert(h) | Often::InsertCount(h), _) = o {
            all.push(*h);
        }
    }
    let sparse = c.kind == Kind::Plus
        && all.len() < 8 * m as usize
        && crate::model::sparse_list(p, &all).1 <= crate::model::sparse_cap(p);
    drop(all);
    let merges = c.ops.iter().any(|o| matches!(o, Op::MergeIn(..) | Op::MergeAgain(..) | Op::MergeMany { .. } | Op::Often(Often::MergeSame, _)));
    let limit = match c.kind {
        Kind::PF => m + 256,
        Kind::Plus if sparse => 40 * distinct + 1024,
        // Merging buffers the codes of the other sketch once.
        Kind::Plus if merges => 24 * m + 2048,
        Kind::Plus => 8 * m + 2048,
    };
    let limit = if c.kind == Kind::Plus { limit.min(24 * m + 2048) } else { limit };
    let base = alloc::live();
    let mut s = Some(S::mk(p)?);
    let fresh = alloc::live() - base;
    if c.kind == Kind::Plus && fresh > 256 {
        return Err(format!("precision {}: a new sketch takes {} bytes", p, fresh));
    }
    let mut top = fresh;
    let mut top_peak = 0;
    for round in 0..c.rounds {
        for (i, o) in c.ops.iter().enumerate() {
            let x = s.as_mut().unwrap();
            alloc::reset_peak();
            let mut transient = false;
            match o {
                Op::Ins(_) => x.put_all(&data[i]),
                Op::Again(_, n) => {
                    for _ in 0..*n {
                        x.put_all(&data[i])
                    }
                }
                Op::Count => {
                    x.est();
                }
                Op::MergeIn(_, count) => {
                    let mut o = S::mk(p)?;
                    o.put_all(&data[i]);
                    if *count {
                        o.est();
                    }
                    if x.join(&o).is_err() {
                        return Err("merge failed".into());
                    }
                    transient = true;
                }
                Op::MergeAgain(_, n) => {
                    let mut o = S::mk(p)?;
                    o.put_all(&data[i]);
                    for _ in 0..*n {
                        if x.join(&o).is_err() {
                            return Err("merge failed".into());
                        }
                    }
                    transient = true;
                }
                Op::MergeMany { n, .. } => {
                    for part in data[i].chunks((*n).max(1) as usize) {
                        let mut o = S::mk(p)?;
                        o.put_all(part);
                        if x.join(&o).is_err() {
                            return Err("merge failed".into());
                        }
                    }
                    transient = true;
                }
                Op::BadMerge(_) => {
                    let mut o = S::mk(if p == 9 { 10 } else { 9 })?;
                    o.put_all(&data[i]);
                    let _ = x.join(&o);
                    transient = true;
                }
                Op::Often(o, n) => {
                    let empty = S::mk(p)?;
                    let same = x.dup();
                    let other = S::mk(if p == 9 { 10 } else { 9 })?;
                    for _ in 0..*n {
                        match o {
                            Often::Count => {
                                x.est();
                            }
                            Often::MergeEmpty => x.join(&empty).map_err(|_| "merge failed")?,
                            Often::MergeSame => x.join(&same).map_err(|_| "merge failed")?,
                            Often::MergeMismatch => {
                                let _ = x.join(&other);
                            }
                            Often::Insert(h) => x.put(*h),
                            Often::InsertCount(h) => {
                                x.put(*h);
                                x.est();
                            }
                            Often::Clone => {
                                let d = x.dup();
                                *x = d;
                            }
                        }
                    }
                    transient = true;
                }
                Op::Clone => {
                    let d = x.dup();
                    s = Some(d);
                    transient = true;
                }
                Op::Trip(f) => {
                    let y = s.take().unwrap();
                    s = Some(y.trip(*f)?.1);
                    transient = true;
                }
            }
            let now = alloc::live() - base;
            top = top.max(now);
            if now > limit {
                return Err(format!(
                    "{:?}, precision {}: {} bytes live after operation {} of round {} ({}; limit {}; {} distinct codes)",
                    c.kind, p, now, i, round, if sparse { "sparse" } else { "dense" }, limit, distinct
                ));
            }
            if !transient {
                let peak = alloc::peak() - base;
                top_peak = top_peak.max(peak);
                // Room for both representations, a copy of the buffer, and a
                // few words for each code or register besides.
                let most = 2 * limit + 2048 + if sparse { 40 * distinct } else { 40 * m };
                if peak > most {
                    return Err(format!(
                        "{:?}, precision {}: {} bytes needed at one time during operation {} of round {} (limit {})",
                        c.kind, p, peak, i, round, most
                    ));
                }
            }
        }
    }
    // Stored, it takes no more: numbers as they are, or as text.
    for (f, times, name) in [(1, 1, "bincode"), (0, 12, "JSON"), (2, 3, "CBOR")] {
        let n = s.as_ref().unwrap().export(f)?.len() as i64;
        if n > times * limit {
            return Err(format!(
                "{:?}, precision {}: {} bytes of {} ({}; limit {}; {} distinct codes)",
                c.kind, p, n, name, if sparse { "sparse" } else { "dense" }, times * limit, distinct
            ));
        }
    }
    drop(s);
    let left = alloc::live() - base;
    if left > 0 {
        return Err(format!("{} bytes still allocated when the sketch is gone", left));
    }
    if std::env::var("C13_SHOW").is_ok() {
        println!("{:?} p{} {} merges {} top {} = {:.2} m, {:.2} per code; peak {:.2} m", c.kind, p, if sparse { "sparse" } else { "dense" }, merges, top, top as f64 / m as f64, top as f64 / distinct.max(1) as f64, top_peak as f64 / m as f64);
    }
    ctx.class(match c.kind {
        Kind::PF => "PF",
        _ if sparse => "Plus, sparse throughout",
        _ if merges => "Plus, beyond sparse, with merges",
        _ => "Plus, beyond sparse",
    });
    ctx.class(format!("p{:02}", p));
    ctx.nontrivial = distinct >= 2;
    Ok(())
}

pub fn run(e: &mut Env) {
    e.campaign("C13", "history", 30000, 12, || strategy(200_000), |c: &Case, x| {
        with_kind!(c.kind, test(c, x))
    });
}
