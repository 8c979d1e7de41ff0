//! Reference models, written from the papers' definitions and independent of
//! the crate's code.
use crate::sk::{close, Kind};
use crate::tables::{BIAS_DATA, RAW_ESTIMATE_DATA};

pub const TWO32: f64 = 4294967296.0;

/// (register index, rank): the top p bits of the hash, and the position of
/// the leftmost 1 among the remaining ones (one past the end if none).
#[inline]
pub fn split(kind: Kind, p: u8, h: u64) -> (usize, u32) {
    let bits = kind.bits();
    let p = p as u32;
    let x = if bits == 32 { h & 0xffff_ffff } else { h };
    let idx = (x >> (bits - p)) as usize;
    let mut rank = 1;
    let mut pos = bits - p;
    while pos > 0 && (x >> (pos - 1)) & 1 == 0 {
        rank += 1;
        pos -= 1;
    }
    (idx, rank)
}

pub fn alpha(m: usize) -> f64 {
    match m {
        16 => 0.673,
        32 => 0.697,
        64 => 0.709,
        _ => 0.7213 / (1.0 + 1.079 / m as f64),
    }
}

pub fn linear_counting(m: f64, zeros: f64) -> f64 {
    m * (m / zeros).ln()
}

#[derive(Clone)]
pub struct Regs {
    pub kind: Kind,
    pub p: u8,
    pub r: Vec<u8>,
    hist: [u32; 66],
}

impl Regs {
    pub fn new(kind: Kind, p: u8) -> Regs {
        let m = 1usize << p;
        let mut hist = [0; 66];
        hist[0] = m as u32;
        Regs { kind, p, r: vec![0; m], hist }
    }
    #[inline]
    pub fn put(&mut self, h: u64) {
        let (i, k) = split(self.kind, self.p, h);
        let old = self.r[i] as u32;
        if k > old {
            self.hist[old as usize] -= 1;
            self.hist[k as usize] += 1;
            self.r[i] = k as u8;
        }
    }
    pub fn put_all(&mut self, v: &[u64]) {
        for h in v {
            self.put(*h)
        }
    }
    pub fn m(&self) -> usize {
        self.r.len()
    }
    pub fn zeros(&self) -> usize {
        self.hist[0] as usize
    }
    /// alpha m^2 / sum 2^-r, smallest terms summed first.
    pub fn raw(&self) -> f64 {
        let mut s = 0.0f64;
        for k in (0..66).rev() {
            if self.hist[k] != 0 {
                s += self.hist[k] as f64 * (0.5f64).powi(k as i32);
            }
        }
        let m = self.m() as f64;
        alpha(self.m()) * m * m / s
    }
}

/// What a model accepts as an estimate.
#[derive(Debug, Default, Clone)]
pub struct Accept {
    pub points: Vec<f64>,
    pub ranges: Vec<(f64, f64)>,
    pub regime: &'static str,
    pub segment: Option<usize>,
}

impl Accept {
    pub fn ok(&self, v: f64) -> bool {
        v.is_finite()
            && (self.points.iter().any(|p| close(*p, v))
                || self.ranges.iter().any(|(a, b)| v >= *a && v <= *b))
    }
    pub fn show(&self) -> String {
        format!("{:?}{} ({})", self.points,
            if self.ranges.is_empty() { String::new() } else { format!(" or in {:?}", self.ranges) },
            self.regime)
    }
}

const EPS: f64 = 1e-12;

/// Flajolet et al., 32-bit hashes.
pub fn pf_estimate(g: &Regs) -> Accept {
    let mut a = Accept::default();
    let (m, raw, zeros) = (g.m() as f64, g.raw(), g.zeros());
    let small = zeros != 0;
    let lim = 2.5 * m;
    if small && raw <= lim * (1.0 + EPS) {
        a.points.push(linear_counting(m, zeros as f64));
        a.regime = "linear";
        if raw <= lim * (1.0 - EPS) {
            return a;
        }
    }
    let big = TWO32 / 30.0;
    if raw <= big * (1.0 + EPS) {
        a.points.push(raw);
        a.regime = if raw <= lim { "raw-low" } else { "raw" };
    }
    if raw > big * (1.0 - EPS) {
        let f = |x: f64| -TWO32 * (-x / TWO32).ln_1p();
        if raw >= TWO32 - 2.0 {
            // Beyond the hash space: any finite value not below it.
            a.ranges.push((TWO32, f64::MAX));
            a.regime = "saturated";
        } else {
            let (lo, hi) = (raw * (1.0 - 1e-12), (raw * (1.0 + 1e-12)).min(TWO32 - 1e-3));
            a.ranges.push((f(lo) * (1.0 - 1e-10), f(hi) * (1.0 + 1e-10)));
            a.regime = "large";
        }
    }
    a
}

/// Thresholds published with HyperLogLog++.
pub const THRESHOLD: [f64; 15] = [
    10.0, 20.0, 40.0, 80.0, 220.0, 400.0, 900.0, 1800.0, 3100.0, 6500.0, 11500.0, 20000.0, 50000.0,
    120000.0, 350000.0,
];

/// HLL++ estimate of dense registers.
pub fn plus_estimate(g: &Regs) -> Accept {
    let mut a = Accept::default();
    let t = (g.p - 4) as usize;
    let (m, zeros) = (g.m() as f64, g.zeros());
    if zeros != 0 {
        let lc = linear_counting(m, zeros as f64);
        if lc <= THRESHOLD[t] * (1.0 + EPS) {
            a.points.push(lc);
            a.regime = "linear";
            if lc <= THRESHOLD[t] * (1.0 - EPS) {
                return a;
            }
        }
    }
    let raw = g.raw();
    if raw <= 5.0 * m * (1.0 + EPS) {
        a.regime = "bias";
        let (e, b) = (RAW_ESTIMATE_DATA[t], BIAS_DATA[t]);
        let n = e.len();
        if raw <= e[0] {
            a.points.push(raw - b[0]);
            a.segment = Some(0);
        } else if raw >= e[n - 1] {
            a.points.push(raw - b[n - 1]);
            a.segment = Some(n);
        } else {
            // The published estimates are not strictly sorted for two
            // precisions: any enclosing ascending pair is acceptable.
            for i in 1..n {
                if e[i - 1] <= raw && raw <= e[i] && e[i - 1] < e[i] {
                    let w = (raw - e[i - 1]) / (e[i] - e[i - 1]);
                    a.points.push(raw - (b[i - 1] + w * (b[i] - b[i - 1])));
                    a.segment = Some(i);
                }
                if raw == e[i] {
                    a.points.push(raw - b[i]);
                }
            }
        }
    }
    if raw > 5.0 * m * (1.0 - EPS) {
        a.points.push(raw);
        a.regime = "unbiased";
    }
    a
}

/// One entry of the sparse list: the 25-bit prefix of the hash, with the rank
/// of the remaining bits made explicit when the prefix alone does not
/// determine the dense rank.
#[inline]
pub fn code(p: u8, h: u64) -> u32 {
    let pre = h >> 39;
    if pre & ((1u64 << (25 - p as u32)) - 1) == 0 {
        let rest = h & ((1u64 << 39) - 1);
        let mut rank = 1u64;
        let mut pos = 39;
        while pos > 0 && (rest >> (pos - 1)) & 1 == 0 {
            rank += 1;
            pos -= 1;
        }
        ((pre << 7) | (rank << 1) | 1) as u32
    } else {
        (pre << 1) as u32
    }
}

pub fn sparse_cap(p: u8) -> usize {
    4 * (1usize << p) / 5
}

fn varint_len(v: u32) -> usize {
    let mut n = 1;
    let mut v = v >> 7;
    while v != 0 {
        n += 1;
        v >>= 7;
    }
    n
}

/// Number of distinct codes and size of their sorted difference/varint list.
pub fn sparse_list(p: u8, values: &[u64]) -> (usize, usize) {
    let mut c: Vec<u32> = values.iter().map(|h| code(p, *h)).collect();
    c.sort_unstable();
    c.dedup();
    let (mut last, mut bytes) = (0u32, 0usize);
    for x in &c {
        bytes += varint_len(*x - last);
        last = *x;
    }
    (c.len(), bytes)
}

/// Same, maintained incrementally.
pub struct Sparse {
    pub p: u8,
    set: std::collections::BTreeSet<u32>,
    pub bytes: usize,
}

impl Sparse {
    pub fn new(p: u8) -> Sparse {
        Sparse { p, set: Default::default(), bytes: 0 }
    }
    pub fn put(&mut self, h: u64) {
        let c = code(self.p, h);
        if !self.set.insert(c) {
            return;
        }
        use std::ops::Bound::*;
        let prev = self.set.range((Unbounded, Excluded(c))).next_back().copied().unwrap_or(0);
        let next = self.set.range((Excluded(c), Unbounded)).next().copied();
        if let Some(n) = next {
            self.bytes -= varint_len(n - prev);
            self.bytes += varint_len(n - c);
        }
        self.bytes += varint_len(c - prev);
    }
    pub fn len(&self) -> usize {
        self.set.len()
    }
    pub fn fits(&self) -> bool {
        self.bytes <= sparse_cap(self.p)
    }
}

pub const SPARSE_BUCKETS: f64 = 33554432.0;

pub fn sparse_estimate(codes: usize) -> f64 {
    linear_counting(SPARSE_BUCKETS, SPARSE_BUCKETS - codes as f64)
}

/// raw estimate minus bias is the cardinality a row was measured at: whole
/// numbers in (nearly) even steps. Guards the reference copy itself.
pub fn tables_sane() {
    assert_eq!(RAW_ESTIMATE_DATA.len(), 15);
    for t in 0..15 {
        let (e, b) = (RAW_ESTIMATE_DATA[t], BIAS_DATA[t]);
        assert_eq!(e.len(), b.len());
        let n: Vec<f64> = e.iter().zip(b).map(|(x, y)| x - y).collect();
        assert_eq!(n[0].round(), 1.0);
        let step = n[2] - n[1];
        for w in n.windows(2) {
            let d = w[1] - w[0];
            assert!((w[1] - w[1].round()).abs() < 1e-6 && (d - step).abs() < 1.01 + 1e-6);
        }
    }
}
