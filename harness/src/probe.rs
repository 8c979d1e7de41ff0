//! Makes individual registers visible in the estimate: every register outside
//! a chosen set is lifted to a high rank, after which the harmonic mean is
//! dominated by the chosen ones; these are then lifted one by one, lowest rank
//! first, so that each later (higher) one is exposed in turn. Only insert and
//! count of the sketch under test are used.
use crate::gen::mk;
use crate::hashers::Sm;
use crate::model::Regs;
use crate::sk::{close, Kind, Sketch, R};

pub struct Probe {
    pub fill: Vec<u64>,
    pub steps: Vec<u64>,
}

/// Fill rank: high, but keeping HyperLogLogPF below its saturated range.
pub fn fill_rank(kind: Kind, p: u8) -> u32 {
    match kind {
        Kind::PF => 31 - p as u32,
        Kind::Plus => 65 - p as u32,
    }
}

impl Probe {
    /// `values`: what the sketches are expected to hold.
    pub fn plan(kind: Kind, p: u8, values: &[u64], seed: u64) -> Probe {
        let mut g = Regs::new(kind, p);
        g.put_all(values);
        let m = g.m();
        let mut s = Sm::new(seed);
        let mut pick: Vec<usize> = Vec::new();
        if m <= 64 {
            pick.extend(0..m);
        } else {
            let touched: Vec<usize> = (0..m).filter(|i| g.r[*i] != 0).collect();
            let mut by_rank = touched.clone();
            by_rank.sort_by_key(|i| std::cmp::Reverse(g.r[*i]));
            pick.extend(by_rank.iter().take(4));
            for _ in 0..10 {
                if !touched.is_empty() {
                    pick.push(touched[s.below(touched.len() as u64) as usize]);
                }
            }
            for v in values.iter().rev().take(2).chain(values.iter().take(2)) {
                pick.push(crate::model::split(kind, p, *v).0);
            }
            pick.push(0);
            pick.push(m - 1);
            pick.push(s.below(m as u64) as usize);
        }
        pick.sort_unstable();
        pick.dedup();
        pick.sort_by_key(|i| g.r[*i]);
        let fr = fill_rank(kind, p);
        let mut chosen = vec![false; m];
        for i in &pick {
            chosen[*i] = true;
        }
        let fill = (0..m)
            .filter(|i| !chosen[*i])
            .map(|i| mk(kind, p, i as u32, fr, s.next()))
            .collect();
        let steps = pick.iter().map(|i| mk(kind, p, *i as u32, fr, s.next())).collect();
        Probe { fill, steps }
    }

    pub fn read<S: Sketch>(&self, sk: &mut S) -> Vec<f64> {
        let mut out = Vec::with_capacity(self.steps.len() + 1);
        sk.put_all(&self.fill);
        out.push(sk.est());
        for h in &self.steps {
            sk.put(*h);
            out.push(sk.est());
        }
        out
    }

    /// Consumes both sketches.
    pub fn compare<S: Sketch>(&self, what: &str, a: &mut S, b: &mut S) -> R<()> {
        let (x, y) = (self.read(a), self.read(b));
        for (i, (u, v)) in x.iter().zip(&y).enumerate() {
            if !close(*u, *v) {
                return Err(format!(
                    "{}: registers differ (probe step {}: {} vs {})",
                    what, i, u, v
                ));
            }
        }
        Ok(())
    }
}

pub fn same(what: &str, a: f64, b: f64) -> R<()> {
    if close(a, b) {
        Ok(())
    } else {
        Err(format!("{}: {} vs {}", what, a, b))
    }
}
