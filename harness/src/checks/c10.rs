//! C10: no panic, estimates finite, non-negative, zero iff empty.
use crate::gen::*;
use crate::hist::*;
use crate::runner::{Ctx, Env};
use crate::sk::{Kind, Sketch, R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    p: u8,
    steps: Vec<Step>,
}

fn hostile(kind: Kind, p: u8) -> BoxedStrategy<Vals> {
    let m = 1u32 << p;
    let mr = kind.max_rank(p);
    let skip = || proptest::collection::vec(0..m, 0..3);
    prop_oneof![
        // Saturated or nearly so.
        3 => (any::<u64>(), mr.saturating_sub(6).max(1)..=mr, skip()).prop_map(|(seed, rank, skip)| Vals::Fill { seed, rank, skip }),
        2 => (any::<u64>(), 1..=mr, skip()).prop_map(|(seed, rank, skip)| Vals::Fill { seed, rank, skip }),
        2 => any::<u64>().prop_map(|mask| Vals::Special { mask }),
        2 => (any::<u64>(), 0u32..300, 1u32..4).prop_map(|(seed, n, span)| Vals::Explicit { seed, n, span }),
        1 => (any::<u64>(), ((1u32 << 25) - 600)..(1 << 25), 1u32..600).prop_map(|(seed, start, n)| Vals::Adjacent { seed, start, n, stride: 1 }),
        2 => (any::<u64>(), m / 2..=4 * m, mr - 8..=mr).prop_map(move |(seed, n, r)| Vals::Ranked { seed, n: n.min(300_000), ilo: 0, ihi: m - 1, rlo: r, rhi: mr }),
    ]
    .boxed()
}

fn strategy(max: u32) -> BoxedStrategy<Case> {
    kind_strategy()
        .prop_flat_map(|k| (Just(k), p_strategy(k)))
        .prop_flat_map(move |(kind, p)| {
            let st = prop_oneof![
                5 => step_strategy(kind, p, Size { max }, ALL),
                3 => hostile(kind, p).prop_map(Step::Ins),
                1 => (hostile(kind, p), any::<bool>()).prop_map(|(v, b)| Step::MergeIn(v, b)),
            ];
            proptest::collection::vec(st, 0..9).prop_map(move |steps| Case { kind, p, steps })
        })
        .boxed()
}

fn test<S: Sketch>(c: &Case, ctx: &mut Ctx) -> R<()> {
    let mut s = S::mk(c.p)?;
    let mut filled = false;
    let sane = |e: f64, filled: bool| -> R<()> {
        if !e.is_finite() || e < 0.0 {
            return Err(format!("precision {}: estimate {}", c.p, e));
        }
        if (e == 0.0) == filled {
            return Err(format!("precision {}: estimate {} with{} values", c.p, e, if filled { "" } else { "out any" }));
        }
        Ok(())
    };
    for (i, st) in c.steps.iter().enumerate() {
        let mut obs = vec![];
        let had = filled;
        s = apply(s, c.p, st, &mut obs)?;
        let any = |v: &Vals| !v.expand(c.kind, c.p).is_empty();
        let mut want = filled;
        match st {
            Step::Ins(v) | Step::InsAny(v) | Step::InsAdd(v) | Step::InsCount(v) | Step::MergeIn(v, _) => {
                filled |= any(v);
                want = filled;
            }
            Step::MergeOut(v, _) => want = had | any(v),
            Step::BadMerge(..) => {
                for o in obs {
                    if o != -1.0 {
                        return Err("merge of another precision was not refused".into());
                    }
                }
                continue;
            }
            _ => {}
        }
        for o in obs {
            sane(o, want)?;
        }
        // Not always, so that representations mix.
        if (i + c.steps.len()) % 3 == 0 {
            sane(s.est(), filled)?;
        }
    }
    sane(s.est(), filled)?;
    sane(s.est(), filled)?;
    ctx.class(format!("{:?}/{}", c.kind, rep(c.kind, c.p, &values(c.kind, c.p, &c.steps))));
    ctx.nontrivial = filled;
    Ok(())
}

pub fn run(e: &mut Env) {
    e.campaign("C10", "history", 50000, 12, || strategy(200_000), |c: &Case, x| {
        with_kind!(c.kind, test(c, x))
    });
}
