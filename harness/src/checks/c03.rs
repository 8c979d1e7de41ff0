//! C03: a merge never alters its source; a mismatch changes nothing.
use crate::gen::*;
use crate::hist::*;
use crate::probe::{same, Probe};
use crate::runner::{Ctx, Env};
use crate::sk::{Kind, Sketch, R};
use hyperloglogplus::HyperLogLogError;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    p: u8,
    q: u8,
    a: Vec<Step>,
    b: Vec<Step>,
    after_a: Vec<Step>,
    after_b: Vec<Step>,
    times: u8,
    seed: u64,
}

fn strategy(max: u32) -> BoxedStrategy<Case> {
    kind_strategy()
        .prop_flat_map(|k| {
            let other = prop_oneof![
                2 => Just(None),
                2 => (k.min_p()..=k.max_p()).prop_map(Some),
                2 => prop_oneof![Just(-1i8), Just(1i8)].prop_map(|d| Some(d as u8)),
            ];
            (Just(k), p_strategy(k), other)
        })
        .prop_map(|(k, p, o)| {
            let q = match o {
                None => p,
                Some(255) => (p - 1).max(k.min_p()),
                Some(1) => (p + 1).min(k.max_p()),
                Some(q) => q,
            };
            (k, p, q)
        })
        .prop_flat_map(move |(kind, p, q)| {
            let st = move |p, n| {
                proptest::collection::vec(step_strategy(kind, p, Size { max }, PLAIN), 0..n)
            };
            (st(p, 4), st(q, 4), st(p, 3), st(q, 3), 1u8..3, any::<u64>()).prop_map(
                move |(a, b, after_a, after_b, times, seed)| Case {
                    kind, p, q, a, b, after_a, after_b, times, seed,
                },
            )
        })
        .boxed()
}

fn test<S: Sketch>(c: &Case, ctx: &mut Ctx) -> R<()> {
    let mut skip = Vec::new();
    let mut mk = |p: u8, st: &[Step]| -> R<S> { apply_all(S::mk(p)?, p, st, &mut skip) };
    let (mut a, mut a2) = (mk(c.p, &c.a)?, mk(c.p, &c.a)?);
    let (mut b, mut b2) = (mk(c.q, &c.b)?, mk(c.q, &c.b)?);
    for _ in 0..c.times {
        let r = a.join(&b);
        let want = if c.p == c.q { Ok(()) } else { Err(HyperLogLogError::IncompatiblePrecision) };
        if r != want {
            return Err(format!("merge of precision {} into {}: {:?}", c.q, c.p, r));
        }
    }
    let (va, vb) = (values(c.kind, c.p, &c.a), values(c.kind, c.q, &c.b));
    let check = |what: &str, x: S, y: S, p: u8, after: &[Step], mut v: Vec<u64>| -> R<()> {
        let (mut ox, mut oy) = (vec![], vec![]);
        let mut x = apply_all(x, p, after, &mut ox)?;
        let mut y = apply_all(y, p, after, &mut oy)?;
        same_obs(what, &ox, &oy)?;
        same(what, x.est(), y.est())?;
        v.extend(values(c.kind, p, after));
        Probe::plan(c.kind, p, &v, c.seed).compare(what, &mut x, &mut y)
    };
    if c.seed & 1 == 1 {
        same("source of a merge, immediately", b.est(), b2.est())?;
    }
    ctx.class(format!(
        "{:?} {} {}<-{}",
        c.kind,
        if c.p == c.q { "equal" } else { "mismatch" },
        rep(c.kind, c.p, &va),
        rep(c.kind, c.q, &vb)
    ));
    ctx.marks.push((c.kind as u64) << 16 | (c.p as u64) << 8 | c.q as u64);
    ctx.nontrivial = !vb.is_empty() && (c.p == c.q || !va.is_empty());
    check("source of a merge", b, b2, c.q, &c.after_b, vb)?;
    if c.p != c.q {
        if c.seed & 2 == 2 {
            same("destination of a failed merge, immediately", a.est(), a2.est())?;
        }
        check("destination of a failed merge", a, a2, c.p, &c.after_a, va)?;
    }
    Ok(())
}

pub fn run(e: &mut Env) {
    e.campaign("C03", "merge", 24000, 12, || strategy(250_000), |c: &Case, x| {
        with_kind!(c.kind, test(c, x))
    });
    let n = e.stats.marks.len() as u64;
    e.stats.sums.insert("precision_pairs_covered".into(), n);
}
