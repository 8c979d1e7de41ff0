//! C08: statistical accuracy on uniformly distributed hashes.
use crate::hashers::{KeyBuild, Sm};
use crate::model::sparse_cap;
use crate::runner::{Ctx, Env};
use crate::sk::{Kind, Pf, Pl, Sketch, R};
use hyperloglogplus::{HyperLogLog, HyperLogLogPF, HyperLogLogPlus};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    p: u8,
    seed: u64,
    /// SipHash of consecutive integers instead of random hashes.
    sip: bool,
}

fn strategy() -> BoxedStrategy<Case> {
    prop_oneof![Just(Kind::PF), Just(Kind::Plus)]
        .prop_flat_map(|k| {
            (Just(k), prop_oneof![3 => k.min_p()..=10, 2 => 11u8..=k.max_p()], any::<u64>(), proptest::bool::weighted(0.2))
        })
        .prop_map(|(kind, p, seed, sip)| Case { kind, p, seed, sip })
        .boxed()
}

/// Published standard error.
pub fn std_error(p: u8) -> f64 {
    let b = match p {
        4 => 1.106,
        5 => 1.070,
        6 => 1.054,
        7 => 1.046,
        _ => 1.04,
    };
    b / ((1u64 << p) as f64).sqrt()
}

/// Systematic error granted on top, relative.
fn bias(kind: Kind, p: u8, n: f64) -> f64 {
    let m = (1u64 << p) as f64;
    match kind {
        // The original algorithm is biased upwards from the end of linear
        // counting on, fading out towards 5 m, and its first registers counts
        // are small-sample corrected only approximately.
        Kind::PF => {
            if n > 1.2 * m && n < 6.0 * m {
                0.04 + 0.15 / m.sqrt()
            } else {
                0.25 / m.sqrt() * 0.4
            }
        }
        Kind::Plus => 0.3 / m.sqrt(),
    }
}

fn grid(p: u8, seed: u64) -> (Vec<u32>, u32) {
    let m = 1u32 << p;
    let top = if p <= 10 { 64 * m } else if p <= 14 { 16 * m } else { 8 * m };
    // Logarithmic, jittered by the seed.
    let mut s = Sm::new(seed);
    let mut g = vec![];
    let mut x = 1.0f64;
    let f = 1.25 + (s.below(1000) as f64) / 2000.0;
    while x < top as f64 {
        g.push(x as u32);
        x = (x * f).max(x + 1.0);
    }
    g.dedup();
    (g, top)
}

/// A count that a Poisson variable of mean `l` practically never exceeds.
fn poisson_most(l: f64) -> f64 {
    if l > 500.0 {
        return l + 9.0 * l.sqrt();
    }
    let mut k = 0.0;
    let mut term = (-l).exp();
    let mut tail = 1.0 - term;
    while tail > 1e-13 && k < l + 400.0 + 20.0 * l.sqrt() {
        k += 1.0;
        term *= l / k;
        tail -= term;
    }
    k
}

/// Expected number of collisions of n values in `buckets`.
fn collisions(n: f64, buckets: f64) -> f64 {
    n * n / 2.0 / buckets
}

fn runs(c: &Case, g: &[u32], n: usize) -> R<Vec<Vec<f64>>> {
    fn one<S: Sketch>(c: &Case, seed: u64, g: &[u32]) -> R<Vec<f64>> {
        let mut s = S::mk(c.p)?;
        let mut r = Sm::new(seed);
        let (mut i, mut out) = (0, Vec::with_capacity(g.len()));
        for n in g {
            while i < *n {
                s.put(r.next());
                i += 1;
            }
            out.push(s.est());
        }
        Ok(out)
    }
    macro_rules! sip {
        ($t:ident, $seed:expr) => {{
            let mut s: $t<u64, KeyBuild> =
                $t::new(c.p, KeyBuild::Sip($seed)).map_err(|e| format!("{:?}", e))?;
            let (mut i, mut out) = (0u64, Vec::with_capacity(g.len()));
            for n in g {
                while i < *n as u64 {
                    s.insert(&i);
                    i += 1;
                }
                out.push(s.count());
            }
            out
        }};
    }
    let mut r = Sm::new(c.seed);
    (0..n)
        .map(|_| {
            let seed = r.next();
            match (c.kind, c.sip) {
                (Kind::PF, false) => one::<Pf>(c, seed, g),
                (Kind::Plus, false) => one::<Pl>(c, seed, g),
                (Kind::PF, true) => Ok(sip!(HyperLogLogPF, seed)),
                (Kind::Plus, true) => Ok(sip!(HyperLogLogPlus, seed)),
            }
        })
        .collect()
}

fn test(c: &Case, ctx: &mut Ctx) -> R<()> {
    let (g, top) = grid(c.p, c.seed);
    let n_runs = ((1u32 << 22) / top).clamp(32, 1500) as usize / if c.sip { 2 } else { 1 };
    let e = runs(c, &g, n_runs)?;
    let rf = n_runs as f64;
    let se = std_error(c.p);
    let show = std::env::var("C08_SHOW").is_ok();
    for (i, n) in g.iter().enumerate() {
        let n = *n as f64;
        let err = |r: &Vec<f64>| (r[i] - n) / n;
        if c.kind == Kind::Plus && n * 4.0 <= sparse_cap(c.p) as f64 {
            let k = poisson_most(collisions(n, 33554432.0)) + 1.0;
            for r in &e {
                if !((r[i] - n).abs() <= k) {
                    return Err(format!("precision {}: {} values estimated as {} in the sparse range", c.p, n, r[i]));
                }
            }
            // All together: collisions cost one each, and their expected
            // number is what linear counting puts back.
            let l = collisions(n, 33554432.0);
            let sum = e.iter().map(|r| r[i] - n).sum::<f64>();
            let slack = 1.0 + 1e-3 * rf * (1.0 + l);
            let low = rf * l - poisson_most(rf * l) - slack;
            let high = 9.0 * (rf * l).sqrt() + slack;
            if show {
                println!("{:?} {:2} sparse n {:8} runs {:4} expected collisions {:.2} sum {:.3} in {:.2}..{:.2}", c.kind, c.p, n, n_runs, rf * l, sum, low, high);
            }
            if !(low <= sum && sum <= high) {
                return Err(format!(
                    "precision {}: {} sketches of {} values in the sparse range are off by {:.2} altogether (expected between {:.2} and {:.2})",
                    c.p, n_runs, n, sum, low, high
                ));
            }
            ctx.add("sparse_points", 1);
            continue;
        }
        let mean = e.iter().map(err).sum::<f64>() / rf;
        let ms = e.iter().map(|r| err(r).powi(2)).sum::<f64>() / rf;
        let worst = e.iter().map(|r| err(r).abs()).fold(0.0, f64::max);
        // One value off is always possible at tiny cardinalities.
        let tiny = if n < 30.0 { 0.6 / n } else { 0.0 };
        let b = bias(c.kind, c.p, n) + tiny;
        if show {
            println!("{:?} {:2} n/m {:9.3} n {:8} runs {:4} mean/se {:7.3} rms/se {:6.3} worst/se {:6.2} allowed bias/se {:.2}",
                c.kind, c.p, n / (1u64 << c.p) as f64, n, n_runs, mean / se, ms.sqrt() / se, worst / se, b / se);
        }
        let mean_lim = b + 7.0 * 1.1 * se / rf.sqrt();
        let ms_lim = (1.1 * se).powi(2) * (1.0 + 7.0 * (3.0 / rf).sqrt()) + b * b + 2.0 * b * 7.0 * se / rf.sqrt();
        let worst_lim = if c.p >= 8 { b + 9.0 * se } else { f64::MAX };
        // Few values in many registers: the error is a small number of
        // collisions, each worth about one value.
        let l = collisions(n, (1u64 << c.p) as f64);
        let (km, kt) = (1.3 * poisson_most(l), 1.3 * poisson_most(rf * l));
        let few = n < 0.1 * (1u64 << c.p) as f64;
        let mean_lim = if few { mean_lim.max(tiny + kt / rf / n) } else { mean_lim };
        let ms_lim = if few { ms_lim.max((tiny + km / n) * (tiny + kt / rf / n)) } else { ms_lim };
        let worst_lim = if few { worst_lim.max(tiny + km / n) } else { worst_lim };
        if !(mean.abs() <= mean_lim && ms <= ms_lim && worst <= worst_lim) {
            return Err(format!(
                "{:?}, precision {}, {} values, {} runs: relative error mean {:.5} (limit {:.5}), rms {:.5} (limit {:.5}), worst {:.5}; published standard error {:.5}",
                c.kind, c.p, n, n_runs, mean, mean_lim, ms.sqrt(), ms_lim.sqrt(), worst, se
            ));
        }
        ctx.add("dense_points", 1);
    }
    ctx.add("sketches", n_runs as u64);
    ctx.class(format!("{:?} p{:02}", c.kind, c.p));
    ctx.nontrivial = true;
    Ok(())
}

pub fn run(e: &mut Env) {
    e.campaign("C08", "accuracy", 600, 12, strategy, |c: &Case, x| test(c, x));
}
