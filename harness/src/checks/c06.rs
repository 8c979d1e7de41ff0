//! C06: the sparse representation and its conversion.
use crate::gen::*;
use crate::hashers::Sm;
use crate::model::{code, split, sparse_cap, sparse_estimate, sparse_list, Sparse};
use crate::probe::{same, Probe};
use crate::runner::{Ctx, Env};
use crate::sk::{close, Kind, Pl, Sketch, R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const K: Kind = Kind::Plus;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    p: u8,
    sets: Vec<Vals>,
    looks: u16,
    seed: u64,
}

fn strategy(max: u32, ps: BoxedStrategy<u8>) -> BoxedStrategy<Case> {
    ps.prop_flat_map(move |p| {
        let m = 1u32 << p;
        let c = move |x: u32| x.clamp(1, max);
        let set = prop_oneof![
            6 => vals_strategy(K, p, Size { max: c(m) }),
            // Up to and around the limit.
            3 => (any::<u64>(), c(m / 8)..=c(m)).prop_map(|(seed, n)| Vals::Uniform { seed, n }),
            2 => (any::<u64>(), c(m / 8)..=c(m), 1u32..=m).prop_map(|(seed, n, span)| Vals::Explicit { seed, n, span }),
            2 => (any::<u64>(), 0u32..(1 << 25), c(m / 4)..=c(m + m / 4), 1u32..=64)
                .prop_map(|(seed, start, n, stride)| Vals::Adjacent { seed, start, n, stride }),
        ];
        (Just(p), proptest::collection::vec(set, 1..4), 1u16..80, any::<u64>())
            .prop_map(|(p, sets, looks, seed)| Case { p, sets, looks, seed })
    })
    .boxed()
}

/// Values of rank 1 in registers the given values occupy anyway: inserting
/// them changes no register but makes the list of codes long.
fn decoys(p: u8, v: &[u64], seed: u64) -> Option<Vec<u64>> {
    let mut idx: Vec<usize> = v.iter().map(|h| split(K, p, *h).0).collect();
    idx.sort_unstable();
    idx.dedup();
    let mut s = Sm::new(seed);
    let want = 2 * sparse_cap(p) + 8;
    let mut out = Vec::new();
    let each = (want / idx.len().max(1) + 1).min(1 << (24 - p)) as u32;
    for i in idx {
        for k in 0..each {
            // distinct 25-bit prefixes, the bit after the index set
            let pre = ((i as u64) << (25 - p)) | (1 << (24 - p)) | k as u64;
            out.push((pre << 39) | (s.next() >> 25));
        }
        if out.len() > want {
            break;
        }
    }
    (out.len() > want).then_some(out)
}

fn test(c: &Case, ctx: &mut Ctx) -> R<()> {
    let p = c.p;
    let cap = sparse_cap(p);
    let v: Vec<u64> = c.sets.iter().flat_map(|x| x.expand(K, p)).collect();
    let mut s = Pl::mk(p)?;
    let mut sp = Sparse::new(p);
    let mut r = Sm::new(c.seed);
    let every = (v.len() as u64 / c.looks as u64).max(1);
    let mut next = r.below(every);
    let mut cut = None;
    let mut near = 0;
    let look = |s: &mut Pl, sp: &Sparse, last: Option<&u64>| -> R<()> {
        let (a, b) = (s.est(), sparse_estimate(sp.len()));
        if close(a, b) {
            return Ok(());
        }
        Err(format!(
            "precision {}: {} distinct codes in {} of {} bytes estimated as {} instead of {} (last value {:x?})",
            p, sp.len(), sp.bytes, cap, a, b, last
        ))
    };
    look(&mut s, &sp, None)?;
    for (i, h) in v.iter().enumerate() {
        let b = sp.bytes;
        sp.put(*h);
        if !sp.fits() {
            cut = Some(i);
            break;
        }
        s.put(*h);
        // Every value close to the limit.
        let close_by = sp.bytes + 12 >= cap && b != sp.bytes && near < 400;
        near += close_by as u32;
        if close_by || i as u64 == next {
            next = i as u64 + 1 + r.below(2 * every);
            look(&mut s, &sp, Some(h))?;
            ctx.add("sparse_looks", 1);
        }
    }
    if cut.is_none() {
        look(&mut s, &sp, v.last())?;
    }
    // Exact after truncation.
    if cut.is_none() && sp.len() <= 8000 {
        let e = s.est().trunc();
        if e != sp.len() as f64 {
            return Err(format!("{} distinct codes counted as {}", sp.len(), e));
        }
    }
    ctx.class(format!("p{:02}", p));
    let explicit = v.iter().filter(|h| code(p, **h) & 1 == 1).count();
    ctx.class(if explicit == 0 { "plain codes" } else if explicit == v.len() { "explicit codes" } else { "mixed codes" });
    ctx.nontrivial = sp.len() >= 2;
    let Some(cut) = cut else {
        ctx.class("stays sparse");
        // Forced over: decoys after instead of before.
        let Some(d) = decoys(p, &v, c.seed) else { return Ok(()) };
        let mut o = Pl::mk(p)?;
        o.put_all(&d);
        o.est();
        o.put_all(&v);
        s.put_all(&d);
        let all: Vec<u64> = v.iter().chain(&d).copied().collect();
        same("sparse, then converted, vs. dense from the start", s.est(), o.est())?;
        ctx.class("converted by decoys");
        return Probe::plan(K, p, &all, c.seed).compare("converted vs. dense from the start", &mut s, &mut o);
    };
    ctx.class("outgrows the limit");
    // From the value that does not fit on, the sketch is dense: it estimates
    // like one that was dense before it saw any of the values.
    let (mut o, mut last) = (None, 0);
    if let Some(d) = decoys(p, &v[..=cut], c.seed) {
        let mut x = Pl::mk(p)?;
        x.put_all(&d);
        x.est();
        o = Some((x, d));
    } else {
        ctx.class("no decoys");
    }
    s.put(v[cut]);
    if let Some((o, d)) = &mut o {
        let clash = {
            // Decoys must not add registers.
            let mut a = crate::model::Regs::new(K, p);
            a.put_all(&v[..=cut]);
            let z = a.zeros();
            a.put_all(d);
            a.zeros() != z
        };
        assert!(!clash);
        o.put_all(&v[..=cut]);
        let (x, y) = (s.est(), o.est());
        if !close(x, y) {
            return Err(format!(
                "precision {}: the list needs {} of {} bytes; estimate {} but {} when dense from the start (and {} if sparse)",
                p, sp.bytes, cap, x, y, sparse_estimate(sp.len())
            ));
        }
        for (i, h) in v[cut + 1..].iter().enumerate() {
            s.put(*h);
            o.put(*h);
            if i < 40 && p <= 12 || i as u64 % (every * 2) == 0 {
                last += 1;
                same("after conversion vs. dense from the start", s.est(), o.est())?;
            }
        }
        ctx.add("dense_looks", last);
        same("after conversion vs. dense from the start", s.est(), o.est())?;
        let all: Vec<u64> = v.iter().chain(&*d).copied().collect();
        Probe::plan(K, p, &all, c.seed).compare("after conversion vs. dense from the start", &mut s, o)?;
    }
    Ok(())
}

/// Few values, converted, every register looked at.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Few {
    p: u8,
    values: Vals,
    counted: bool,
    seed: u64,
}

fn few_strategy() -> BoxedStrategy<Few> {
    (7u8..=18)
        .prop_flat_map(|p| {
            let n = Size { max: 12 };
            let e = (any::<u64>(), 1u32..12, prop_oneof![1u32..4, Just(1u32 << p)])
                .prop_map(|(seed, n, span)| Vals::Explicit { seed, n, span });
            (Just(p), prop_oneof![vals_strategy(K, p, n), e, any::<u64>().prop_map(|mask| Vals::Special { mask })], any::<bool>(), any::<u64>())
        })
        .prop_map(|(p, values, counted, seed)| Few { p, values, counted, seed })
        .boxed()
}

fn few(c: &Few, ctx: &mut Ctx) -> R<()> {
    let p = c.p;
    let mut v = c.values.expand(K, p);
    v.truncate(300);
    let mut s = Pl::mk(p)?;
    s.put_all(&v);
    let (n, b) = sparse_list(p, &v);
    if c.counted && b <= sparse_cap(p) {
        same("sparse estimate", s.est(), sparse_estimate(n))?;
    }
    let pr = Probe::plan(K, p, &v, c.seed);
    // The same with the bulk of the registers dense first.
    let mut o = Pl::mk(p)?;
    o.put_all(&pr.fill);
    if crate::model::sparse_list(p, &pr.fill).1 <= sparse_cap(p) {
        ctx.class("fill too small");
        return Ok(());
    }
    o.est();
    o.put_all(&v);
    let x = pr.read(&mut s);
    let y = pr.read(&mut o);
    crate::hist::same_obs("values, then the rest vs. the rest, then values (probed)", &x, &y)?;
    ctx.class(format!("p{:02}", p));
    ctx.nontrivial = !v.is_empty();
    Ok(())
}

pub fn run(e: &mut Env) {
    e.campaign("C06", "transition", 120000, 12, || strategy(300_000, (4u8..=10).boxed()), |c: &Case, x| test(c, x));
    e.campaign("C06", "transition-large", 1500, 12, || strategy(300_000, (11u8..=18).boxed()), |c: &Case, x| test(c, x));
    e.campaign("C06", "few", 6000, 12, few_strategy, |c: &Few, x| few(c, x));
}
