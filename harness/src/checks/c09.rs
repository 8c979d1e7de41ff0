//! C09: precisions accepted, and what an accepted one gives.
use crate::gen::*;
use crate::hashers::{KeyBuild, Sm};
use crate::runner::{Ctx, Env};
use crate::sk::{close, Kind, Sketch, R};
use hyperloglogplus::{HyperLogLogError, HyperLogLogPF, HyperLogLogPlus};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    p: u8,
    seed: u64,
}

/// The documented range, for builders and value types of all sorts.
fn bounds(c: &Case, ctx: &mut Ctx) -> R<()> {
    let want = (c.kind.min_p()..=c.kind.max_p()).contains(&c.p);
    macro_rules! go {
        ($t:ident) => {{
            let a = $t::<u64, crate::hashers::Pass>::new(c.p, crate::hashers::Pass).map(|_| ());
            let b = $t::<str, KeyBuild>::new(c.p, KeyBuild::Sip(c.seed)).map(|_| ());
            let d = $t::<Vec<u8>, std::collections::hash_map::RandomState>::new(c.p, Default::default()).map(|_| ());
            [a, b, d]
        }};
    }
    let rs = match c.kind {
        Kind::PF => go!(HyperLogLogPF),
        Kind::Plus => go!(HyperLogLogPlus),
    };
    for r in rs {
        match (want, r) {
            (true, Ok(())) | (false, Err(HyperLogLogError::InvalidPrecision)) => {}
            (_, r) => return Err(format!("{:?}: new({}) gives {:?}", c.kind, c.p, r)),
        }
    }
    ctx.class(if want { "accepted" } else { "refused" });
    ctx.nontrivial = true;
    Ok(())
}

fn errors() -> R<()> {
    use HyperLogLogError::*;
    let (a, b) = (InvalidPrecision, IncompatiblePrecision);
    if a == b || a != InvalidPrecision || b != IncompatiblePrecision {
        return Err("errors do not compare by kind".into());
    }
    let (da, db) = (a.to_string(), b.to_string());
    if da.trim().is_empty() || db.trim().is_empty() || da == db {
        return Err(format!("errors display as {:?} and {:?}", da, db));
    }
    if format!("{:?}", a) == format!("{:?}", b) {
        return Err("errors look the same to Debug".into());
    }
    let (ea, eb): (Box<dyn std::error::Error>, Box<dyn std::error::Error>) = (Box::new(a), Box::new(b));
    if ea.to_string() != da || eb.to_string() != db {
        return Err("boxed errors display differently".into());
    }
    Ok(())
}

/// 2^p registers: values of equal rank in different registers each change the
/// estimate, in equal registers none does.
fn usable<S: Sketch>(c: &Case, ctx: &mut Ctx) -> R<()> {
    let p = c.p;
    let m = 1u32 << p;
    let mut s = S::mk(p)?;
    if s.est() != 0.0 {
        return Err(format!("precision {}: a new sketch estimates {}", p, s.est()));
    }
    let mut r = Sm::new(c.seed);
    // A random subset of registers left for individual insertion.
    let n = if p <= 8 { m } else { 40 };
    let mut left: Vec<u32> = if p <= 8 { (0..m).collect() } else { (0..n).map(|_| r.below(m as u64) as u32).collect() };
    if p > 8 {
        left.extend([0, m - 1, m / 2, m / 2 - 1]);
        let k = r.below(m as u64 - 1) as u32;
        left.extend([k, k + 1]);
        left.sort_unstable();
        left.dedup();
    }
    shuffle(&mut left, c.seed);
    let keep = if p <= 8 { r.below(m as u64 / 2) as usize + 1 } else { 0 };
    let now = left.split_off(keep.min(left.len()));
    let mut rest: Vec<u64> = Vec::new();
    if p <= 8 {
        rest.extend(left.iter().map(|i| mk(S::KIND, p, *i, 1, r.next())));
    } else {
        let set: std::collections::HashSet<u32> = now.iter().copied().collect();
        rest.extend((0..m).filter(|i| !set.contains(i)).map(|i| mk(S::KIND, p, i, 1, 0)));
    }
    s.put_all(&rest);
    let mut prev = s.est();
    if S::KIND == Kind::Plus {
        // Leave the sparse representation, in which every distinct prefix
        // counts, through many values of one register.
        let reg = left.first().copied().unwrap_or_else(|| (0..m).find(|i| !now.contains(i)).unwrap());
        for k in 0..(1u32 << (25 - p)).min(2 * m + 64) {
            let h = ((reg as u64) << (64 - p as u32)) | ((k as u64) << 39) | 1 << (63 - p);
            s.put(h);
        }
        prev = s.est();
        // Same register, same rank: only a sparse sketch notices.
        s.put(((reg as u64) << (64 - p as u32)) | 1 << (63 - p) | 0x15 << 39);
        s.put(((reg as u64) << (64 - p as u32)) | 1 << (63 - p) | 3);
        if !close(prev, s.est()) {
            ctx.class("not dense");
            return Ok(());
        }
    }
    let full = m as usize - now.len();
    for (j, i) in now.iter().enumerate() {
        let h = mk(S::KIND, p, *i, 1, r.next());
        s.put(h);
        let a = s.est();
        if close(a, prev) {
            return Err(format!(
                "precision {}: filling register {} ({} of {} filled) does not change the estimate {}",
                p, i, full + j, m, a
            ));
        }
        s.put(mk(S::KIND, p, *i, 1, r.next()));
        if !close(a, s.est()) {
            return Err(format!("precision {}: register {} took another value of the same rank", p, i));
        }
        prev = a;
    }
    ctx.class(format!("{:?} p{:02}", c.kind, p));
    ctx.nontrivial = true;
    Ok(())
}

pub fn run(e: &mut Env) {
    // Every precision there is, for both types.
    let all: Vec<Case> = (0..=255u8)
        .flat_map(|p| [Kind::PF, Kind::Plus].map(|kind| Case { kind, p, seed: 0 }))
        .collect();
    e.each("C09", "all-precisions", all, |c: &Case, x| {
        errors()?;
        bounds(c, x)
    });
    e.campaign(
        "C09",
        "bounds",
        20000,
        4,
        || {
            (prop_oneof![Just(Kind::PF), Just(Kind::Plus)], any::<u8>(), any::<u64>())
                .prop_map(|(kind, p, seed)| Case { kind, p, seed })
                .boxed()
        },
        |c: &Case, x| bounds(c, x),
    );
    e.campaign(
        "C09",
        "usable",
        15000,
        12,
        || {
            prop_oneof![Just(Kind::PF), Just(Kind::Plus)]
                .prop_flat_map(|kind| {
                    (prop_oneof![4 => kind.min_p()..=10, 2 => kind.min_p()..=kind.max_p(), 1 => Just(kind.max_p())], any::<u64>())
                        .prop_map(move |(p, seed)| Case { kind, p, seed })
                })
                .boxed()
        },
        |c: &Case, x| with_kind!(c.kind, usable(c, x)),
    );
}
