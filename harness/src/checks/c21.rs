//! C21: the memory traffic of operations, that is, what they ask of the
//! allocator in total, stays in proportion.
use crate::alloc;
use crate::gen::*;
use crate::runner::{Ctx, Env};
use crate::sk::{Kind, Sketch, R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) enum Op {
    Ins(Vals),
    /// The same values again and again.
    Again(Vals, u8),
    /// Estimates, nothing in between.
    Counts(u8),
    Merge(Vals, bool, u8),
    /// Sketches with a value each.
    Ones(u64, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Case {
    pub(super) kind: Kind,
    pub(super) p: u8,
    pub(super) near: Option<Near>,
    pub(super) ops: Vec<Op>,
}

/// Before all else, codes that all but fill the sparse list; then some of
/// them again, inserted and merged.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Near {
    pub(super) seed: u64,
    start: u32,
    stride: u32,
    /// Bytes to leave.
    left: u8,
    pub(super) again: u16,
}

impl Near {
    pub(super) fn expand(&self, kind: Kind, p: u8) -> Vec<u64> {
        let all = Vals::Adjacent { seed: self.seed, start: self.start, n: 1 << p, stride: self.stride }.expand(kind, p);
        let cap = crate::model::sparse_cap(p).saturating_sub(self.left as usize);
        let (mut lo, mut hi) = (0, all.len());
        while lo < hi {
            let mid = (lo + hi + 1) / 2;
            if crate::model::sparse_list(p, &all[..mid]).1 <= cap {
                lo = mid
            } else {
                hi = mid - 1
            }
        }
        all[..lo].to_vec()
    }
}

pub(super) fn strategy(max: u32) -> BoxedStrategy<Case> {
    prop_oneof![1 => Just(Kind::PF), 4 => Just(Kind::Plus)]
        .prop_flat_map(|k| (Just(k), p_strategy(k)))
        .prop_flat_map(move |(kind, p)| {
            let m = 1u32 << p;
            let v = move || {
                prop_oneof![
                    4 => vals_strategy(kind, p, Size { max }),
                    2 => (any::<u64>(), 0u32..(1 << 25), m / 4..=m, 1u32..=64).prop_map(|(seed, start, n, stride)| Vals::Adjacent { seed, start, n, stride }),
                    2 => (any::<u64>(), m / 4..=2 * m).prop_map(|(seed, n)| Vals::Uniform { seed, n }),
                ]
            };
            let op = prop_oneof![
                5 => v().prop_map(Op::Ins),
                2 => (v(), 2u8..6).prop_map(|(v, n)| Op::Again(v, n)),
                2 => (1u8..20).prop_map(Op::Counts),
                2 => (v(), any::<bool>(), 1u8..8).prop_map(|(v, b, n)| Op::Merge(v, b, n)),
                2 => (any::<u64>(), 1u16..300).prop_map(|(s, n)| Op::Ones(s, n)),
            ];
            let near = if kind == Kind::Plus {
                proptest::option::weighted(0.3, (any::<u64>(), 0u32..1 << 24, prop_oneof![1u32..=64, 1u32..=20], prop_oneof![0u8..8, any::<u8>()], 1u16..3000)
                    .prop_map(|(seed, start, stride, left, again)| Near { seed, start, stride, left, again })).boxed()
            } else {
                Just(None).boxed()
            };
            (near, proptest::collection::vec(op, 1..6)).prop_map(move |(near, ops)| Case { kind, p, near, ops })
        })
        .boxed()
}

fn test<S: Sketch>(c: &Case, ctx: &mut Ctx) -> R<()> {
    let p = c.p;
    let m = 1u64 << p;
    let show = std::env::var("C21_SHOW").is_ok();
    let mut s = S::mk(p)?;
    let mut total = 0u64;
    if let Some(near) = &c.near {
        let d = near.expand(c.kind, p);
        s.put_all(&d);
        s.est();
        let mut r = crate::hashers::Sm::new(near.seed);
        let (mut ins, mut mer) = (0, 0);
        for _ in 0..near.again {
            if d.is_empty() {
                break;
            }
            let h = d[r.below(d.len() as u64) as usize];
            let a = alloc::asked();
            s.put(h);
            ins += alloc::asked() - a;
            let mut o = S::mk(p)?;
            o.put(h);
            let a = alloc::asked();
            s.join(&o).map_err(|e| format!("merge: {:?}", e))?;
            mer += alloc::asked() - a;
        }
        let limit = 3000 * near.again as u64 + 128 * m + 4096;
        for (what, asked) in [("insertions", ins), ("merges of one value each", mer)] {
            if asked > limit {
                return Err(format!(
                    "precision {}, sparse list nearly full: {} {} ask for {} bytes in total (limit {})",
                    p, near.again, what, asked, limit
                ));
            }
        }
        total += 2 * near.again as u64;
        ctx.class("sparse list nearly full".to_string());
    }
    for (i, o) in c.ops.iter().enumerate() {
        // (what it asked for, in how many operations, allowed)
        let (asked, n, limit, what) = match o {
            Op::Ins(v) => {
                let d = v.expand(c.kind, p);
                let a = alloc::asked();
                s.put_all(&d);
                (alloc::asked() - a, d.len(), 3000 * d.len() as u64 + 128 * m + 4096, "insertions")
            }
            Op::Again(v, k) => {
                let d = v.expand(c.kind, p);
                let a = alloc::asked();
                for _ in 0..*k {
                    s.put_all(&d);
                }
                let n = d.len() * *k as usize;
                (alloc::asked() - a, n, 3000 * n as u64 + 128 * m + 4096, "insertions")
            }
            Op::Counts(n) => {
                let a = alloc::asked();
                for _ in 0..*n {
                    s.est();
                }
                (alloc::asked() - a, *n as usize, *n as u64 * (64 * m + 4096), "estimates")
            }
            Op::Merge(v, count, n) => {
                let mut o = S::mk(p)?;
                o.put_all(&v.expand(c.kind, p));
                if *count {
                    o.est();
                }
                let a = alloc::asked();
                for _ in 0..*n {
                    s.join(&o).map_err(|e| format!("merge: {:?}", e))?;
                }
                (alloc::asked() - a, *n as usize, *n as u64 * (256 * m + 4096), "merges")
            }
            Op::Ones(seed, n) => {
                let mut r = crate::hashers::Sm::new(*seed);
                let mut asked = 0;
                for _ in 0..*n {
                    let mut o = S::mk(p)?;
                    o.put(r.next());
                    let a = alloc::asked();
                    s.join(&o).map_err(|e| format!("merge: {:?}", e))?;
                    asked += alloc::asked() - a;
                }
                (asked, *n as usize, 3000 * *n as u64 + 128 * m + 4096, "merges of one value each")
            }
        };
        total += n as u64;
        if show {
            println!("{:?} p{:02} {} n {} asked {} of {} = {:.3}; {:.1} each, {:.2} m each", c.kind, p, what, n, asked, limit, asked as f64 / limit as f64, asked as f64 / n.max(1) as f64, asked as f64 / n.max(1) as f64 / m as f64);
        }
        if asked > limit {
            return Err(format!(
                "{:?}, precision {}, operation {}: {} {} ask for {} bytes in total (limit {})",
                c.kind, p, i, n, what, asked, limit
            ));
        }
    }
    ctx.add("operations", total);
    ctx.class(format!("{:?} p{:02}", c.kind, p));
    ctx.nontrivial = total >= 100;
    Ok(())
}

pub fn run(e: &mut Env) {
    e.campaign("C21", "traffic", 30000, 12, || strategy(200_000), |c: &Case, x| match c.kind {
        Kind::PF => test::<crate::sk::Pf>(c, x),
        Kind::Plus => test::<crate::sk::Pl>(c, x),
    });
}
