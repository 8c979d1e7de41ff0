//! Operation histories on one sketch, shared by several checks.
use crate::gen::{vals_strategy, Size, Vals};
use crate::sk::{Fmt, Kind, Sketch, FMTS, R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Ins(Vals),
    InsAny(Vals),
    InsAdd(Vals),
    /// An estimate after every insertion.
    InsCount(Vals),
    Count,
    /// Merge in a sketch of these values (estimated before or not).
    MergeIn(Vals, bool),
    /// Merge into another sketch of these values and estimate that.
    MergeOut(Vals, bool),
    /// Replace by a clone.
    Clone,
    /// Replace by a round trip.
    Trip(Fmt),
    /// Try to merge a sketch of another precision.
    BadMerge(Vals, u8),
}

#[derive(Clone, Copy)]
pub struct Mix {
    pub merge: u32,
    pub clone: u32,
    pub trip: u32,
    pub bad: u32,
    pub entry: u32,
}

pub const PLAIN: Mix = Mix { merge: 0, clone: 0, trip: 0, bad: 0, entry: 0 };
pub const MERGES: Mix = Mix { merge: 3, ..PLAIN };
pub const ALL: Mix = Mix { merge: 3, clone: 1, trip: 1, bad: 1, entry: 2 };

pub fn fmt_strategy() -> BoxedStrategy<Fmt> {
    (0..FMTS.len()).prop_map(|i| FMTS[i]).boxed()
}

/// How many estimates after single insertions to ask for.
pub fn each(p: u8) -> u32 {
    match p {
        0..=8 => 400,
        9..=12 => 60,
        _ => 6,
    }
}

pub fn step_strategy(kind: Kind, p: u8, size: Size, mix: Mix) -> BoxedStrategy<Step> {
    let v = move || vals_strategy(kind, p, size);
    // One estimate per insertion costs 2^p each once dense.
    let few = Size { max: size.max.min(each(p)) };
    let ve = move || vals_strategy(kind, p, few);
    let mut o: Vec<(u32, BoxedStrategy<Step>)> = vec![
        (6, v().prop_map(Step::Ins).boxed()),
        (2, ve().prop_map(Step::InsCount).boxed()),
        (3, Just(Step::Count).boxed()),
    ];
    if mix.merge > 0 {
        o.push((mix.merge, (v(), any::<bool>()).prop_map(|(a, b)| Step::MergeIn(a, b)).boxed()));
        o.push((
            mix.merge.div_ceil(2),
            (v(), any::<bool>()).prop_map(|(a, b)| Step::MergeOut(a, b)).boxed(),
        ));
    }
    if mix.clone > 0 {
        o.push((mix.clone, Just(Step::Clone).boxed()));
    }
    if mix.trip > 0 {
        o.push((mix.trip, fmt_strategy().prop_map(Step::Trip).boxed()));
    }
    if mix.bad > 0 {
        let small = Size { max: size.max.min(300) };
        o.push((
            mix.bad,
            (vals_strategy(kind, p, small), 0u8..15).prop_map(|(a, b)| Step::BadMerge(a, b)).boxed(),
        ));
    }
    if mix.entry > 0 {
        o.push((mix.entry, v().prop_map(Step::InsAny).boxed()));
        o.push((mix.entry, v().prop_map(Step::InsAdd).boxed()));
    }
    proptest::strategy::Union::new_weighted(o).boxed()
}

/// An other valid precision, by number.
pub fn other_p(kind: Kind, p: u8, k: u8) -> u8 {
    let n = kind.max_p() - kind.min_p();
    let q = kind.min_p() + (k % n);
    if q >= p {
        q + 1
    } else {
        q
    }
}

/// `make` a sketch of values.
pub fn build<S: Sketch>(p: u8, v: &[u64], count: bool) -> R<S> {
    let mut s = S::mk(p)?;
    s.put_all(v);
    if count {
        s.est();
    }
    Ok(s)
}

/// Applies one step, appending what can be observed.
pub fn apply<S: Sketch>(mut s: S, p: u8, st: &Step, obs: &mut Vec<f64>) -> R<S> {
    let k = S::KIND;
    match st {
        Step::Ins(v) => s.put_all(&v.expand(k, p)),
        Step::InsAny(v) => {
            for h in v.expand(k, p) {
                s.put_any(h)
            }
        }
        Step::InsAdd(v) => {
            for h in v.expand(k, p) {
                s.put_add(h)
            }
        }
        Step::InsCount(v) => {
            for (i, h) in v.expand(k, p).into_iter().enumerate() {
                s.put(h);
                // Some recipes ignore the size asked for.
                if i < each(p) as usize {
                    obs.push(s.est());
                }
            }
        }
        Step::Count => obs.push(s.est()),
        Step::MergeIn(v, c) => {
            let o: S = build(p, &v.expand(k, p), *c)?;
            s.join(&o).map_err(|e| format!("merge of equal precisions failed: {:?}", e))?;
        }
        Step::MergeOut(v, c) => {
            let mut o: S = build(p, &v.expand(k, p), *c)?;
            o.join(&s).map_err(|e| format!("merge of equal precisions failed: {:?}", e))?;
            obs.push(o.est());
        }
        Step::Clone => s = s.dup(),
        Step::Trip(f) => s = s.trip(*f)?.1,
        Step::BadMerge(v, q) => {
            let q = other_p(k, p, *q);
            let o: S = build(q, &v.expand(k, q), false)?;
            // -1 marks the expected refusal.
            obs.push(match s.join(&o) {
                Err(hyperloglogplus::HyperLogLogError::IncompatiblePrecision) => -1.0,
                Err(_) => -2.0,
                Ok(()) => -3.0,
            });
        }
    }
    Ok(s)
}

pub fn apply_all<S: Sketch>(mut s: S, p: u8, st: &[Step], obs: &mut Vec<f64>) -> R<S> {
    for x in st {
        s = apply(s, p, x, obs)?;
    }
    Ok(s)
}

/// All values the steps put into the sketch.
pub fn values(kind: Kind, p: u8, st: &[Step]) -> Vec<u64> {
    let mut out = Vec::new();
    for s in st {
        match s {
            Step::Ins(v) | Step::InsAny(v) | Step::InsAdd(v) | Step::InsCount(v) | Step::MergeIn(v, _) => {
                out.extend(v.expand(kind, p))
            }
            _ => {}
        }
    }
    out
}

pub fn same_obs(what: &str, a: &[f64], b: &[f64]) -> R<()> {
    if a.len() != b.len() {
        return Err(format!("{}: {} observations vs {}", what, a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if !crate::sk::close(*x, *y) {
            return Err(format!("{}: observation {}: {} vs {}", what, i, x, y));
        }
    }
    Ok(())
}

/// Which representation a set of values leads to (by the reference model).
pub fn rep(kind: Kind, p: u8, v: &[u64]) -> &'static str {
    if v.is_empty() {
        return "empty";
    }
    if kind == Kind::PF {
        return "pf";
    }
    // Far beyond the limit: no need to sort.
    if v.len() > 40 * (1 << p) {
        return "dense";
    }
    let (_, b) = crate::model::sparse_list(p, v);
    let cap = crate::model::sparse_cap(p);
    if b > cap {
        "dense"
    } else if b * 100 > cap * 2 {
        "sparse"
    } else {
        "buffered"
    }
}
