//! C02: merging equals sketching the union.
use crate::gen::*;
use crate::hashers::{KeyBuild, RawHash};
use crate::probe::{same, Probe};
use crate::runner::{Ctx, Env};
use crate::sk::{Kind, Sketch, R};
use hyperloglogplus::{HyperLogLog, HyperLogLogPF, HyperLogLogPlus};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Ins(u8, Vals),
    Count(u8),
    Merge(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    p: u8,
    slots: u8,
    ops: Vec<Op>,
    seed: u64,
}

fn strategy(max: u32) -> BoxedStrategy<Case> {
    kind_strategy()
        .prop_flat_map(|k| (Just(k), p_strategy(k), 2u8..=4))
        .prop_flat_map(move |(k, p, n)| {
            let size = Size { max };
            let ins = (0..n, vals_strategy(k, p, size)).prop_map(|(s, v)| Op::Ins(s, v));
            let op = prop_oneof![
                4 => ins.clone(),
                2 => (0..n).prop_map(Op::Count),
                5 => (0..n, 1..n).prop_map(move |(a, d)| Op::Merge(a, (a + d) % n)),
            ];
            (
                proptest::collection::vec(ins, 1..4),
                proptest::collection::vec(op, 1..9),
                any::<u64>(),
            )
                .prop_map(move |(mut a, b, seed)| {
                    a.extend(b);
                    Case { kind: k, p, slots: n, ops: a, seed }
                })
        })
        .boxed()
}

struct Slot<S> {
    real: S,
    shadow: S,
    vals: Vec<u64>,
}

fn test<S: Sketch>(c: &Case, ctx: &mut Ctx) -> R<()> {
    let p = c.p;
    let mut sl: Vec<Slot<S>> = Vec::new();
    for _ in 0..c.slots {
        sl.push(Slot { real: S::mk(p)?, shadow: S::mk(p)?, vals: vec![] });
    }
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            Op::Ins(s, v) => {
                let v = v.expand(c.kind, p);
                let s = &mut sl[*s as usize];
                s.real.put_all(&v);
                s.shadow.put_all(&v);
                s.vals.extend(v);
            }
            Op::Count(s) => {
                let s = &mut sl[*s as usize];
                same(&format!("op {}: estimate vs. union", i), s.real.est(), s.shadow.est())?;
            }
            Op::Merge(d, s) => {
                let (d, s) = (*d as usize, *s as usize);
                if d == s {
                    continue;
                }
                if ctx.classes.len() < 8 && sl[d].vals.len() + sl[s].vals.len() < 200_000 {
                    ctx.class(format!(
                        "{:?} {}<-{}",
                        c.kind,
                        crate::hist::rep(c.kind, p, &sl[d].vals),
                        crate::hist::rep(c.kind, p, &sl[s].vals)
                    ));
                }
                if !sl[d].vals.is_empty() && !sl[s].vals.is_empty() {
                    ctx.nontrivial = true;
                }
                let (a, b) = if d < s {
                    let (x, y) = sl.split_at_mut(s);
                    (&mut x[d], &y[0])
                } else {
                    let (x, y) = sl.split_at_mut(d);
                    (&mut y[0], &x[s])
                };
                a.real
                    .join(&b.real)
                    .map_err(|e| format!("op {}: merge failed: {:?}", i, e))?;
                a.shadow.put_all(&b.vals);
                a.vals.extend_from_slice(&b.vals);
                a.vals.sort_unstable();
                a.vals.dedup();
            }
        }
    }
    for (i, s) in sl.iter_mut().enumerate() {
        same(&format!("slot {}: final estimate vs. union", i), s.real.est(), s.shadow.est())?;
        Probe::plan(c.kind, p, &s.vals, c.seed).compare(
            &format!("slot {}: merged vs. union", i),
            &mut s.real,
            &mut s.shadow,
        )?;
    }
    ctx.class(format!("p{:02}", p));
    Ok(())
}

/// Laws: commutative, associative, idempotent, empty is neutral.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Law {
    kind: Kind,
    p: u8,
    a: Vals,
    b: Vals,
    c: Vals,
    counted: u8,
    seed: u64,
}

fn law_strategy(max: u32) -> BoxedStrategy<Law> {
    kind_strategy()
        .prop_flat_map(|k| (Just(k), p_strategy(k)))
        .prop_flat_map(move |(kind, p)| {
            let v = move || vals_strategy(kind, p, Size { max });
            (v(), v(), v(), any::<u8>(), any::<u64>()).prop_map(move |(a, b, c, counted, seed)| Law {
                kind, p, a, b, c, counted, seed,
            })
        })
        .boxed()
}

fn laws<S: Sketch>(c: &Law, ctx: &mut Ctx) -> R<()> {
    let p = c.p;
    let (a, b, d) = (c.a.expand(c.kind, p), c.b.expand(c.kind, p), c.c.expand(c.kind, p));
    let mut bit = 0;
    let mut build = |v: &[u64]| -> R<S> {
        bit += 1;
        crate::hist::build(p, v, c.counted >> (bit % 8) & 1 == 1)
    };
    fn j<S: Sketch>(mut x: S, y: &S) -> R<S> {
        x.join(y).map_err(|e| format!("merge failed: {:?}", e))?;
        Ok(x)
    }
    let all: Vec<u64> = a.iter().chain(&b).chain(&d).copied().collect();
    let pr = Probe::plan(c.kind, p, &all, c.seed);
    // (a+b)+c, a+(b+c), c+(b+a), then idempotence and the neutral element.
    let mut x = j(j(build(&a)?, &build(&b)?)?, &build(&d)?)?;
    let bc = j(build(&b)?, &build(&d)?)?;
    let mut y = j(build(&a)?, &bc)?;
    let ba = j(build(&b)?, &build(&a)?)?;
    let mut z = j(build(&d)?, &ba)?;
    z = j(z, &build(&all)?)?;
    z = j(z, &build(&[])?)?;
    let mut w = j(build(&[])?, &x)?;
    let e = x.est();
    same("(a+b)+c vs a+(b+c)", e, y.est())?;
    same("(a+b)+c vs c+(b+a)+all+empty", e, z.est())?;
    same("x vs empty+x", e, w.est())?;
    let rx = pr.read(&mut x);
    crate::hist::same_obs("associativity (probed)", &rx, &pr.read(&mut y))?;
    crate::hist::same_obs("commutativity/idempotence (probed)", &rx, &pr.read(&mut z))?;
    crate::hist::same_obs("neutral element (probed)", &rx, &pr.read(&mut w))?;
    ctx.nontrivial = !a.is_empty() && !b.is_empty() && !d.is_empty();
    Ok(())
}

/// Sketches of other value and hasher types merged into this one.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cross {
    kind: Kind,
    p: u8,
    a: Vals,
    b: Vals,
    key: KeyBuild,
    counted: bool,
    seed: u64,
}

fn cross(c: &Cross, ctx: &mut Ctx) -> R<()> {
    let p = c.p;
    let (a, b) = (c.a.expand(c.kind, p), c.b.expand(c.kind, p));
    macro_rules! go {
        ($t:ident) => {{
            let mut x: $t<u64, crate::hashers::Pass> = Sketch::mk(p)?;
            let mut shadow: $t<u64, crate::hashers::Pass> = Sketch::mk(p)?;
            let mut o: $t<String, KeyBuild> =
                $t::new(p, c.key.clone()).map_err(|e| format!("{:?}", e))?;
            x.put_all(&a);
            shadow.put_all(&a);
            for h in &b {
                o.insert_any(&RawHash(*h));
                shadow.put(*h);
            }
            if c.counted {
                o.count();
                x.est();
            }
            x.merge(&o).map_err(|e| format!("merge failed: {:?}", e))?;
            same("merge across types vs. union", x.est(), shadow.est())?;
            let all: Vec<u64> = a.iter().chain(&b).copied().collect();
            Probe::plan(c.kind, p, &all, c.seed).compare("across types", &mut x, &mut shadow)?;
        }};
    }
    match c.kind {
        Kind::PF => go!(HyperLogLogPF),
        Kind::Plus => go!(HyperLogLogPlus),
    }
    ctx.nontrivial = !a.is_empty() && !b.is_empty();
    Ok(())
}

pub fn key_strategy() -> BoxedStrategy<KeyBuild> {
    prop_oneof![
        3 => any::<u64>().prop_map(KeyBuild::Sip),
        2 => any::<u64>().prop_map(KeyBuild::Fnv),
        1 => any::<u64>().prop_map(KeyBuild::Low32),
        1 => any::<u64>().prop_map(KeyBuild::High32),
        1 => any::<u64>().prop_map(KeyBuild::Weak),
    ]
    .boxed()
}

fn cross_strategy(max: u32) -> BoxedStrategy<Cross> {
    kind_strategy()
        .prop_flat_map(|k| (Just(k), p_strategy(k)))
        .prop_flat_map(move |(kind, p)| {
            let v = move || vals_strategy(kind, p, Size { max });
            (v(), v(), key_strategy(), any::<bool>(), any::<u64>()).prop_map(
                move |(a, b, key, counted, seed)| Cross { kind, p, a, b, key, counted, seed },
            )
        })
        .boxed()
}

/// Few sketches merged again and again: many merges, as a counter of them
/// would notice.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    kind: Kind,
    p: u8,
    /// The values of the one merged into, and of those merged.
    own: Vals,
    parts: Vec<Vals>,
    merges: u32,
    /// An estimate after every so many merges; none for 0.
    every: u32,
}

fn long_strategy() -> BoxedStrategy<Long> {
    kind_strategy()
        .prop_flat_map(|k| (Just(k), prop_oneof![2 => 4u8..=6, 3 => p_strategy(k)]))
        .prop_flat_map(|(kind, p)| {
            let v = move |max| prop_oneof![
                // Few: the other generators may go up to 2^p.
                3 => (any::<u64>(), 0..=max).prop_map(|(seed, n)| Vals::Uniform { seed, n }),
                1 => vals_strategy(kind, p, Size { max }),
            ];
            (
                prop_oneof![v(30), v(3000)],
                proptest::collection::vec(prop_oneof![8 => v(3), 1 => v(300)], 1..10),
                prop_oneof![1 => (1u32 << 15)..(1 << 20), 2 => (1u32 << 20)..(1 << 22)],
                prop_oneof![Just(0u32), 10_000u32..1_000_000],
            )
                .prop_map(move |(own, parts, merges, every)| Long { kind, p, own, parts, merges, every })
        })
        .boxed()
}

fn long<S: Sketch>(c: &Long, ctx: &mut Ctx) -> R<()> {
    let mut vals: Vec<u64> = c.own.expand(c.kind, c.p);
    vals.truncate(20_000);
    let (mut s, mut f) = (S::mk(c.p)?, S::mk(c.p)?);
    s.put_all(&vals);
    let (mut parts, mut cost) = (vec![], 1);
    for v in &c.parts {
        let mut v = v.expand(c.kind, c.p);
        v.truncate(2000);
        let mut part = S::mk(c.p)?;
        part.put_all(&v);
        // Some with a buffer, some without.
        if v.len() % 2 == 0 {
            part.est();
        }
        cost = cost.max(v.len() as u64);
        vals.extend(v);
        parts.push(part);
    }
    f.put_all(&vals);
    // At most five bytes per code: certainly sparse.
    if c.kind == Kind::PF || vals.len() * 5 > crate::model::sparse_cap(c.p) {
        cost += 1 << c.p;
    }
    // At most 2^28 registers or codes looked at.
    let n = (c.merges as u64).min((1u64 << 28) / (4 * cost)).max(parts.len() as u64);
    for i in 0..n {
        s.join(&parts[(i % parts.len() as u64) as usize]).map_err(|e| format!("merge {}: {}", i, e))?;
        if c.every != 0 && (i + 1) % c.every as u64 == 0 {
            same(&format!("after {} merges", i + 1), s.est(), f.est())?;
        }
    }
    same(&format!("after {} merges", n), s.est(), f.est())?;
    Probe::plan(c.kind, c.p, &vals, c.merges as u64).compare("many merges vs. union", &mut s, &mut f)?;
    ctx.add("merges", n);
    ctx.class(format!("long {:?}", c.kind));
    ctx.nontrivial = !vals.is_empty();
    Ok(())
}

pub fn run(e: &mut Env) {
    e.campaign("C02", "histories", 14000, 12, || strategy(300_000), |c: &Case, x| {
        with_kind!(c.kind, test(c, x))
    });
    e.campaign("C02", "laws", 6000, 12, || law_strategy(200_000), |c: &Law, x| {
        with_kind!(c.kind, laws(c, x))
    });
    e.campaign("C02", "across-types", 3000, 12, || cross_strategy(100_000), |c: &Cross, x| {
        cross(c, x)
    });
    e.campaign("C02", "long", 160, 12, long_strategy, |c: &Long, x| {
        with_kind!(c.kind, long(c, x))
    });
}
