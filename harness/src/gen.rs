//! Value-set recipes: what proptest generates and shrinks. `expand` turns a
//! recipe into hashes and is a pure function.
use crate::hashers::Sm;
use crate::sk::Kind;
use proptest::prelude::*;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Vals {
    /// Uniformly random hashes.
    Uniform { seed: u64, n: u32 },
    /// Random register in [ilo, ihi], random rank in [rlo, rhi].
    Ranked { seed: u64, n: u32, ilo: u32, ihi: u32, rlo: u32, rhi: u32 },
    /// Bits between the register index and the 25-bit prefix all zero.
    Explicit { seed: u64, n: u32, span: u32 },
    /// 25-bit prefixes start, start+stride, ... with random tails.
    Adjacent { seed: u64, start: u32, n: u32, stride: u32 },
    /// One 25-bit prefix, many tails.
    SamePrefix { seed: u64, n: u32 },
    /// One value of the given rank for every register not in `skip`.
    Fill { seed: u64, rank: u32, skip: Vec<u32> },
    /// One value of random rank <= max for every register in a random subset.
    Cover { seed: u64, max: u32, keep256: u32 },
    /// Boundary values selected by mask.
    Special { mask: u64 },
    /// Explicit hashes.
    Raw { v: Vec<u64> },
}

/// A hash with the given register and rank; `junk` fills all other bits.
pub fn mk(kind: Kind, p: u8, idx: u32, rank: u32, junk: u64) -> u64 {
    let bits = kind.bits();
    let w = bits - p as u32;
    let rank = rank.clamp(1, w + 1);
    let rest = if rank == w + 1 {
        0
    } else {
        let b = w - rank;
        (1u64 << b) | (junk & ((1u64 << b) - 1))
    };
    let idx = (idx as u64) & ((1u64 << p) - 1);
    let x = (idx << w) | rest;
    if bits == 32 {
        x | (junk.rotate_left(17) & 0xffff_ffff_0000_0000)
    } else {
        x
    }
}

fn from_prefix25(kind: Kind, pre: u64, junk: u64) -> u64 {
    let pre = pre & ((1 << 25) - 1);
    match kind {
        Kind::Plus => (pre << 39) | (junk & ((1 << 39) - 1)),
        Kind::PF => (pre << 7) | (junk & 0x7f) | (junk & 0xffff_ffff_0000_0000),
    }
}

pub fn specials(p: u8) -> Vec<u64> {
    let p = p as u32;
    let mut v = vec![
        0,
        u64::MAX,
        1,
        1 << 63,
        1 << 39,
        1 << 38,
        (1 << 39) - 1,
        !((1u64 << 39) - 1),
        1 << (64 - p),
        (1u64 << (64 - p)) - 1,
        !0u64 << (64 - p),
        1 << (63 - p),
        (!0u64 << (64 - p)) | 1,
        (!0u64 << (64 - p)) | (1 << 39),
        (!0u64 << (64 - p)) | (1 << 38),
        0xffff_ffff,
        0xffff_ffff_0000_0000,
        1 << 31,
        1 << (32 - p),
        (1u64 << (32 - p)) - 1,
        (0xffff_ffffu64 << (32 - p)) & 0xffff_ffff,
        1 << (31 - p),
        1 << 32,
        0x5555_5555_5555_5555,
        0xaaaa_aaaa_aaaa_aaaa,
        0x8000_0000_8000_0000,
        0x7fff_ffff_7fff_ffff,
        1 << 40,
        3 << 38,
        0xffff_ffff_ffff_fffe,
        i64::MAX as u64,
        0x0000_0001_0000_0001,
    ];
    for i in 0..32 {
        v.push(1 << (2 * i));
    }
    v
}

impl Vals {
    pub fn expand(&self, kind: Kind, p: u8) -> Vec<u64> {
        let m = 1u64 << p;
        match self {
            Vals::Uniform { seed, n } => {
                let mut s = Sm::new(*seed);
                (0..*n).map(|_| s.next()).collect()
            }
            Vals::Ranked { seed, n, ilo, ihi, rlo, rhi } => {
                let mut s = Sm::new(*seed);
                (0..*n)
                    .map(|_| {
                        let i = *ilo as u64 + s.below((ihi.max(ilo) - ilo) as u64 + 1);
                        let r = *rlo as u64 + s.below((rhi.max(rlo) - rlo) as u64 + 1);
                        mk(kind, p, i as u32, r as u32, s.next())
                    })
                    .collect()
            }
            Vals::Explicit { seed, n, span } => {
                let mut s = Sm::new(*seed);
                (0..*n)
                    .map(|_| {
                        let i = s.below((*span as u64).clamp(1, m));
                        let i = if *seed & 1 == 1 { m - 1 - i } else { i };
                        let lo = if kind == Kind::Plus { 26 - p as u64 } else { 12 };
                        let hi = kind.max_rank(p) as u64;
                        let lo = lo.min(hi);
                        let r = lo + s.below(hi - lo + 1);
                        mk(kind, p, i as u32, r as u32, s.next())
                    })
                    .collect()
            }
            Vals::Adjacent { seed, start, n, stride } => {
                let mut s = Sm::new(*seed);
                (0..*n as u64)
                    .map(|i| {
                        from_prefix25(kind, *start as u64 + i * *stride as u64, s.next())
                    })
                    .collect()
            }
            Vals::SamePrefix { seed, n } => {
                let mut s = Sm::new(*seed);
                let mut pre = s.next();
                if seed & 1 == 1 {
                    // make the bits below the index zero
                    pre &= !((1u64 << (25 - p as u32)) - 1);
                }
                (0..*n)
                    .map(|_| {
                        let r = s.next();
                        let sh = s.below(40);
                        from_prefix25(kind, pre, r >> sh)
                    })
                    .collect()
            }
            Vals::Fill { seed, rank, skip } => {
                let mut s = Sm::new(*seed);
                let mut out = Vec::with_capacity(m as usize);
                for i in 0..m as u32 {
                    if !skip.contains(&i) {
                        out.push(mk(kind, p, i, *rank, s.next()));
                    }
                }
                out
            }
            Vals::Cover { seed, max, keep256 } => {
                let mut s = Sm::new(*seed);
                let mut out = Vec::new();
                for i in 0..m as u32 {
                    let r = 1 + s.below(*max as u64) as u32;
                    let j = s.next();
                    if s.below(256) < *keep256 as u64 {
                        out.push(mk(kind, p, i, r, j));
                    }
                }
                out
            }
            Vals::Special { mask } => specials(p)
                .into_iter()
                .enumerate()
                .filter(|(i, _)| mask >> (i % 64) & 1 == 1)
                .map(|(_, v)| v)
                .collect(),
            Vals::Raw { v } => v.clone(),
        }
    }
}

/// How large generated sets may be.
#[derive(Clone, Copy, Debug)]
pub struct Size {
    /// Upper limit of a single set.
    pub max: u32,
}

/// Number of values: tiny, small, around the sparse limit, around 2^p, many.
pub fn count_strategy(p: u8, size: Size) -> BoxedStrategy<u32> {
    let m = 1u32 << p;
    let c = |x: u32| x.clamp(1, size.max);
    let heavy = if p >= 15 { 1 } else { 3 };
    Union::new_weighted(vec![
        (2, (0..=c(4)).boxed()),
        (3, (0..=c(64)).boxed()),
        (4, (0..=c(m / 2)).boxed()),
        (3, (c(m / 8)..=c(m)).boxed()),
        (heavy, (c(m / 2)..=c(6 * m)).boxed()),
    ])
    .boxed()
}

pub fn vals_strategy(kind: Kind, p: u8, size: Size) -> BoxedStrategy<Vals> {
    let m = 1u32 << p;
    let mr = kind.max_rank(p);
    let n = move || count_strategy(p, size);
    let few = move || prop_oneof![3 => 0u32..=3, 2 => 0u32..=40, 1 => count_strategy(p, Size { max: size.max.min(m) })];
    let mut opts: Vec<(u32, BoxedStrategy<Vals>)> = vec![
        (5, (any::<u64>(), n()).prop_map(|(seed, n)| Vals::Uniform { seed, n }).boxed()),
        (
            4,
            (any::<u64>(), n(), 0..m, 0..m, 1..=mr, 1..=mr)
                .prop_map(|(seed, n, a, b, r, s)| Vals::Ranked {
                    seed,
                    n,
                    ilo: a.min(b),
                    ihi: a.max(b),
                    rlo: r.min(s),
                    rhi: r.max(s),
                })
                .boxed(),
        ),
        (
            3,
            (any::<u64>(), few(), prop_oneof![1u32..=4, Just(m)])
                .prop_map(|(seed, n, span)| Vals::Explicit { seed, n, span })
                .boxed(),
        ),
        (
            4,
            (
                any::<u64>(),
                prop_oneof![Just(0u32), 0u32..(1 << 25), ((1u32 << 25) - 4096)..(1 << 25)],
                n(),
                prop_oneof![Just(1u32), Just(63), Just(64), 1u32..=200, 1u32..=20000],
            )
                .prop_map(|(seed, start, n, stride)| Vals::Adjacent { seed, start, n, stride })
                .boxed(),
        ),
        (1, (any::<u64>(), few()).prop_map(|(seed, n)| Vals::SamePrefix { seed, n }).boxed()),
        (2, any::<u64>().prop_map(|mask| Vals::Special { mask }).boxed()),
        (
            2,
            (any::<u64>(), 1..=mr, 0u32..=256)
                .prop_map(|(seed, max, keep256)| Vals::Cover { seed, max, keep256 })
                .boxed(),
        ),
        (
            2,
            proptest::collection::vec(any::<u64>(), 0..6).prop_map(|v| Vals::Raw { v }).boxed(),
        ),
    ];
    if m <= size.max {
        opts.push((
            2,
            (any::<u64>(), 1..=mr, proptest::collection::vec(0..m, 0..4))
                .prop_map(|(seed, rank, skip)| Vals::Fill { seed, rank, skip })
                .boxed(),
        ));
    }
    Union::new_weighted(opts).boxed()
}

/// Precisions, small ones (cheap, every transition within reach) more often.
pub fn p_strategy(kind: Kind) -> BoxedStrategy<u8> {
    let hi = kind.max_p();
    prop_oneof![
        30 => 4u8..=8,
        14 => 9u8..=12,
        6 => 13u8..=hi,
    ]
    .boxed()
}

pub fn kind_strategy() -> BoxedStrategy<Kind> {
    if cfg!(feature = "std") {
        prop_oneof![2 => Just(Kind::PF), 3 => Just(Kind::Plus)].boxed()
    } else {
        Just(Kind::PF).boxed()
    }
}

/// Deterministic Fisher-Yates.
pub fn shuffle<T>(v: &mut [T], seed: u64) {
    let mut s = Sm::new(seed);
    for i in (1..v.len()).rev() {
        v.swap(i, s.below(i as u64 + 1) as usize);
    }
}
