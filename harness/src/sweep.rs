//! Registers filled one by one: every number of empty registers there can be.
use crate::gen::*;
use crate::hashers::Sm;
use crate::model::sparse_cap;
use crate::sk::Kind;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sweep {
    pub kind: Kind,
    pub p: u8,
    /// Ranks up to this; no more than 2 keeps to linear counting.
    pub top: u32,
    pub seed: u64,
    /// Registers filled before looking, and one at a time while looking.
    pub lo: u32,
    pub n: u32,
}

impl Sweep {
    /// (values inserted first, values to look after). HyperLogLogPlus is made
    /// dense by neighbouring codes in as few registers as possible.
    pub fn values(&self) -> (Vec<u64>, Vec<u64>) {
        let m = 1u32 << self.p;
        let mut r = Sm::new(self.seed);
        let mut first = if self.kind == Kind::Plus {
            let n = 2 * sparse_cap(self.p) as u32 + 64;
            Vals::Adjacent { seed: self.seed, start: r.next() as u32, n, stride: 1 }.expand(self.kind, self.p)
        } else {
            vec![]
        };
        let mut regs: Vec<u32> = (0..m).collect();
        shuffle(&mut regs, self.seed);
        let mut value = |i: &u32| {
            let k = 1 + r.below(self.top as u64) as u32;
            mk(self.kind, self.p, *i, k, r.next())
        };
        first.extend(regs.iter().take(self.lo as usize).map(&mut value));
        let rest = regs.iter().skip(self.lo as usize).take(self.n as usize).map(&mut value).collect();
        (first, rest)
    }
}

/// Cuts the sweeps over all registers of all precisions into cases of about
/// equal work. Of each precision's cases one in `2^(2 p - full)` is kept.
pub fn sweeps(kind: Kind, seed: u64, full: u32) -> Vec<Sweep> {
    let mut out = vec![];
    let mut r = Sm::new(seed ^ 0x5eed);
    for p in kind.min_p()..=kind.max_p() {
        let m = 1u32 << p;
        let n = ((1u32 << 24) >> p).min(m);
        let one_in = 1u64 << (2 * p as u32).saturating_sub(full);
        let order = r.next();
        for lo in (0..m).step_by(n as usize) {
            if r.below(one_in) == 0 {
                out.push(Sweep { kind, p, top: 1 + (lo / n) % 2, seed: order, lo, n });
            }
        }
    }
    out
}
