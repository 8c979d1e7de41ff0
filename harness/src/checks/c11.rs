//! C11: every way of inserting a value amounts to inserting its hash.
use crate::checks::c02::key_strategy;
use crate::gen::*;
use crate::hashers::{KeyBuild, Pass, RawHash, Sm};
use crate::model::split;
use crate::probe::{fill_rank, same, Probe};
use crate::runner::{Ctx, Env};
use crate::sk::{Kind, Sketch, R};
use hyperloglogplus::{HyperLogLog, HyperLogLogPF, HyperLogLogPlus};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::hash::{BuildHasher, Hash, Hasher};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Typed {
    Strings(Vec<String>),
    Strs(Vec<String>),
    Bytes(Vec<Vec<u8>>),
    Slices(Vec<Vec<u8>>),
    U8(Vec<u8>),
    U16(Vec<u16>),
    U32(Vec<u32>),
    U64(Vec<u64>),
    Usize(Vec<usize>),
    I8(Vec<i8>),
    I32(Vec<i32>),
    I64(Vec<i64>),
    Bool(Vec<bool>),
    Char(Vec<char>),
    Unit(Vec<()>),
    Pair(Vec<(u32, String)>),
    Triple(Vec<(u8, i64, bool)>),
    Opt(Vec<Option<i16>>),
    Res(Vec<Result<u8, String>>),
    Arr(Vec<[u16; 3]>),
    Nested(Vec<Vec<Option<String>>>),
    Boxed(Vec<String>),
    Arcs(Vec<u64>),
    Refs(Vec<String>),
    Map(Vec<BTreeMap<u8, i32>>),
    Deep(Vec<Deep>),
}

/// A value whose hash takes sketches to compute.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Deep(u8, u16);

impl Hash for Deep {
    fn hash<S: Hasher>(&self, s: &mut S) {
        fn inner<T: Sketch>(n: u16) -> u64 {
            let (mut a, mut b) = (T::mk(4).unwrap(), T::mk(4).unwrap());
            for i in 0..n % 40 {
                a.put(crate::hashers::mix(i as u64));
            }
            b.put(crate::hashers::mix(n as u64));
            b.join(&a).unwrap();
            let mut c = b.dup();
            (c.est() + b.est()) as u64
        }
        self.0.hash(s);
        let (a, b) = (inner::<HyperLogLogPF<u64, Pass>>(self.1), inner::<HyperLogLogPlus<u64, Pass>>(self.1));
        (a ^ b << 1).hash(s);
        self.1.hash(s);
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    p: u8,
    key: KeyBuild,
    /// Raw hashes present beforehand.
    base: Vals,
    typed: Typed,
    /// Picks the entry point of each value.
    entry: u64,
    counts: bool,
}

fn typed() -> BoxedStrategy<Typed> {
    let n = || 0usize..40;
    let st = || "[a-c]{0,3}|\\PC{0,40}";
    let k = |s: BoxedStrategy<Typed>| s;
    proptest::strategy::Union::new(vec![
        k(vec(st(), n()).prop_map(Typed::Strings).boxed()),
        k(vec(st(), n()).prop_map(Typed::Strs).boxed()),
        k(vec(vec(any::<u8>(), 0..70), n()).prop_map(Typed::Bytes).boxed()),
        k(vec(vec(any::<u8>(), 0..70), n()).prop_map(Typed::Slices).boxed()),
        k(vec(any::<u8>(), 0..300).prop_map(Typed::U8).boxed()),
        k(vec(any::<u16>(), n()).prop_map(Typed::U16).boxed()),
        k(vec(any::<u32>(), 0..300).prop_map(Typed::U32).boxed()),
        k(vec(any::<u64>(), 0..300).prop_map(Typed::U64).boxed()),
        k(vec(any::<usize>(), n()).prop_map(Typed::Usize).boxed()),
        k(vec(any::<i8>(), n()).prop_map(Typed::I8).boxed()),
        k(vec(any::<i32>(), n()).prop_map(Typed::I32).boxed()),
        k(vec(any::<i64>(), n()).prop_map(Typed::I64).boxed()),
        k(vec(any::<bool>(), n()).prop_map(Typed::Bool).boxed()),
        k(vec(any::<char>(), n()).prop_map(Typed::Char).boxed()),
        k((0usize..3).prop_map(|n| Typed::Unit(vec![(); n])).boxed()),
        k(vec((any::<u32>(), st()), n()).prop_map(Typed::Pair).boxed()),
        k(vec((any::<u8>(), any::<i64>(), any::<bool>()), n()).prop_map(Typed::Triple).boxed()),
        k(vec(any::<Option<i16>>(), n()).prop_map(Typed::Opt).boxed()),
        k(vec(prop_oneof![any::<u8>().prop_map(Ok), st().prop_map(Err)], n()).prop_map(Typed::Res).boxed()),
        k(vec(any::<[u16; 3]>(), n()).prop_map(Typed::Arr).boxed()),
        k(vec(vec(proptest::option::of(st()), 0..5), 0..20).prop_map(Typed::Nested).boxed()),
        k(vec(st(), n()).prop_map(Typed::Boxed).boxed()),
        k(vec(any::<u64>(), n()).prop_map(Typed::Arcs).boxed()),
        k(vec(st(), n()).prop_map(Typed::Refs).boxed()),
        k(vec((any::<u8>(), any::<u16>()).prop_map(|(a, b)| Deep(a, b)), n()).prop_map(Typed::Deep).boxed()),
        k(vec(proptest::collection::btree_map(any::<u8>(), any::<i32>(), 0..6), 0..20).prop_map(Typed::Map).boxed()),
    ])
    .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    kind_strategy()
        .prop_flat_map(|k| (Just(k), p_strategy(k)))
        .prop_flat_map(|(kind, p)| {
            (key_strategy(), vals_strategy(kind, p, Size { max: 30_000 }), typed(), any::<u64>(), any::<bool>()).prop_map(
                move |(key, base, typed, entry, counts)| Case { kind, p, key, base, typed, entry, counts },
            )
        })
        .boxed()
}

fn hash_of<T: Hash + ?Sized>(k: &KeyBuild, v: &T) -> u64 {
    let mut h = k.build_hasher();
    v.hash(&mut h);
    h.finish()
}

fn test(c: &Case, ctx: &mut Ctx) -> R<()> {
    let p = c.p;
    let base = c.base.expand(c.kind, p);
    let mut r = Sm::new(c.entry);
    // $list: the ways of inserting value $v into sketch $s.
    macro_rules! drive {
        ($t:ident, $ty:ty, $vals:expr, $s:ident, $v:ident, [$($way:expr),+ $(,)?]) => {{
            let mut $s: $t<$ty, KeyBuild> = $t::new(p, c.key.clone()).map_err(|e| format!("{:?}", e))?;
            let mut shadow: $t<u64, Pass> = Sketch::mk(p)?;
            for h in &base {
                $s.insert_any(&RawHash(*h));
                shadow.put(*h);
            }
            let mut all = base.clone();
            let ways = [$(stringify!($way)),+];
            for $v in $vals.iter() {
                let h = hash_of(&c.key, $v);
                let which = r.below(ways.len() as u64) as usize;
                let mut i = 0;
                $(
                    if i == which { #[allow(deprecated)] { $way; } }
                    i += 1;
                )+
                let _ = i;
                shadow.put(h);
                all.push(h);
                if c.counts {
                    let what = format!("{} of a {} with hash {:#x}", ways[which], stringify!($ty), h);
                    same(&what, $s.count(), shadow.est())?;
                }
            }
            same(concat!("values of type ", stringify!($ty)), $s.count(), shadow.est())?;
            ctx.class(stringify!($ty));
            ctx.nontrivial = all.len() > base.len();
            let pr = Probe::plan(c.kind, p, &all, c.entry);
            for h in &pr.fill {
                $s.insert_any(&RawHash(*h));
                shadow.put(*h);
            }
            for h in pr.steps.iter().map(Some).chain([None]) {
                same(concat!("probing, values of type ", stringify!($ty)), $s.count(), shadow.est())?;
                if let Some(h) = h {
                    $s.insert_any(&RawHash(*h));
                    shadow.put(*h);
                }
            }
        }};
    }
    macro_rules! plain {
        ($t:ident, $ty:ty, $vals:expr) => {
            drive!($t, $ty, $vals, s, v, [s.insert(v), s.insert_any(v), s.add(v), s.insert_any(&v)])
        };
    }
    macro_rules! all {
        ($t:ident) => {
            match &c.typed {
                Typed::Strings(x) => drive!($t, String, x, s, v, [
                    s.insert(v), s.insert(v.as_str()), s.insert_any(v.as_str()), s.insert_any(v), s.add(v), s.insert::<str>(&v[..])
                ]),
                Typed::Strs(x) => drive!($t, str, x, s, v, [
                    s.insert(v.as_str()), s.add(v.as_str()), s.insert_any(v.as_str()), s.insert_any(v)
                ]),
                Typed::Bytes(x) => drive!($t, Vec<u8>, x, s, v, [
                    s.insert(v), s.insert(&v[..]), s.insert_any(&v[..]), s.add(v), s.insert_any(v)
                ]),
                Typed::Slices(x) => drive!($t, [u8], x, s, v, [
                    s.insert(&v[..]), s.add(&v[..]), s.insert_any(v)
                ]),
                Typed::U8(x) => plain!($t, u8, x),
                Typed::U16(x) => plain!($t, u16, x),
                Typed::U32(x) => plain!($t, u32, x),
                Typed::U64(x) => plain!($t, u64, x),
                Typed::Usize(x) => plain!($t, usize, x),
                Typed::I8(x) => plain!($t, i8, x),
                Typed::I32(x) => plain!($t, i32, x),
                Typed::I64(x) => plain!($t, i64, x),
                Typed::Bool(x) => plain!($t, bool, x),
                Typed::Char(x) => plain!($t, char, x),
                Typed::Unit(x) => plain!($t, (), x),
                Typed::Pair(x) => plain!($t, (u32, String), x),
                Typed::Triple(x) => plain!($t, (u8, i64, bool), x),
                Typed::Opt(x) => plain!($t, Option<i16>, x),
                Typed::Res(x) => plain!($t, Result<u8, String>, x),
                Typed::Arr(x) => drive!($t, [u16; 3], x, s, v, [s.insert(v), s.insert(&v[..]), s.add(v), s.insert_any(v)]),
                Typed::Nested(x) => drive!($t, Vec<Option<String>>, x, s, v, [s.insert(v), s.insert(&v[..]), s.add(v), s.insert_any(v)]),
                Typed::Boxed(x) => {
                    let y: Vec<Box<str>> = x.iter().map(|s| s.as_str().into()).collect();
                    drive!($t, Box<str>, y, s, v, [s.insert(v), s.insert::<str>(v), s.add(v), s.insert_any(&**v)])
                }
                Typed::Arcs(x) => {
                    let y: Vec<std::sync::Arc<u64>> = x.iter().map(|v| std::sync::Arc::new(*v)).collect();
                    drive!($t, std::sync::Arc<u64>, y, s, v, [s.insert(v), s.insert::<u64>(v), s.add(v), s.insert_any(&**v)])
                }
                Typed::Refs(x) => {
                    let y: Vec<&str> = x.iter().map(|s| s.as_str()).collect();
                    drive!($t, &str, y, s, v, [s.insert(v), s.insert::<str>(v), s.add(v), s.insert_any(*v)])
                }
                Typed::Map(x) => plain!($t, BTreeMap<u8, i32>, x),
                Typed::Deep(x) => plain!($t, Deep, x),
            }
        };
    }
    match c.kind {
        Kind::PF => all!(HyperLogLogPF),
        Kind::Plus => all!(HyperLogLogPlus),
    }
    ctx.class(match c.key {
        KeyBuild::Sip(_) => "SipHash",
        KeyBuild::Fnv(_) => "FNV",
        KeyBuild::Low32(_) => "32-bit hasher",
        KeyBuild::High32(_) => "upper half hasher",
        KeyBuild::Weak(_) => "colliding hasher",
    });
    Ok(())
}

/// Which bits of the hash matter.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bits {
    kind: Kind,
    p: u8,
    values: Vals,
    idx: u32,
    rank: u32,
    seed: u64,
}

fn bits_strategy() -> BoxedStrategy<Bits> {
    kind_strategy()
        .prop_flat_map(|k| (Just(k), p_strategy(k)))
        .prop_flat_map(|(kind, p)| {
            (vals_strategy(kind, p, Size { max: 30_000 }), 0..(1u32 << p), 1..kind.max_rank(p), any::<u64>())
                .prop_map(move |(values, idx, rank, seed)| Bits { kind, p, values, idx, rank, seed })
        })
        .boxed()
}

fn bits<S: Sketch>(c: &Bits, ctx: &mut Ctx) -> R<()> {
    let (p, k) = (c.p, c.kind);
    let mut r = Sm::new(c.seed);
    if k == Kind::PF {
        // The upper half is irrelevant.
        let v = c.values.expand(k, p);
        let (mut a, mut b) = (S::mk(p)?, S::mk(p)?);
        a.put_all(&v);
        for h in &v {
            b.put((*h & 0xffff_ffff) | (r.next() << 32));
        }
        same("upper 32 bits replaced", a.est(), b.est())?;
        Probe::plan(k, p, &v, c.seed).compare("upper 32 bits replaced", &mut a, &mut b)?;
    }
    // One register, each rank told from the next, through every bit used;
    // bits below the first 1 are irrelevant once registers are in use.
    let fr = fill_rank(k, p);
    let m = 1u32 << p;
    let fill: Vec<u64> = (0..m).filter(|i| *i != c.idx).map(|i| mk(k, p, i, fr, r.next())).collect();
    let sure = k == Kind::PF || crate::model::sparse_list(p, &fill).1 > 2 * crate::model::sparse_cap(p);
    if sure {
        let one = |h: u64, first: bool| -> R<f64> {
            let mut s = S::mk(p)?;
            if first {
                s.put(h);
            }
            s.put_all(&fill);
            s.est();
            s.put(h);
            Ok(s.est())
        };
        let first = r.below(2) == 1;
        let h = mk(k, p, c.idx, c.rank, r.next());
        let a = one(h, first)?;
        let b = one(mk(k, p, c.idx, c.rank, r.next()), !first)?;
        same("bits after the leftmost 1", a, b)?;
        let d = one(mk(k, p, c.idx, c.rank + 1, r.next()), first)?;
        if !((a - d).abs() > 1e-9 * a) {
            return Err(format!(
                "precision {}: ranks {} and {} of register {} are not told apart ({} and {})",
                p, c.rank, c.rank + 1, c.idx, a, d
            ));
        }
        assert_eq!(split(k, p, h), (c.idx as usize, c.rank));
        ctx.marks.push((k as u64) << 32 | (p as u64) << 16 | c.rank as u64);
        ctx.class("rank told apart");
    }
    ctx.nontrivial = true;
    Ok(())
}

pub fn run(e: &mut Env) {
    e.campaign("C11", "typed", 40000, 12, strategy, |c: &Case, x| test(c, x));
    e.campaign("C11", "bits", 20000, 12, bits_strategy, |c: &Bits, x| {
        with_kind!(c.kind, bits(c, x))
    });
    let n = e.stats.marks.len() as u64;
    e.stats.sums.insert("precision_rank_pairs_told_apart".into(), n);
}
