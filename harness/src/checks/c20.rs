//! C20: sketches may be sent to and shared between threads.
use crate::gen::*;
use crate::runner::{Ctx, Env};
use crate::sk::{close, Kind, Pf, Pl, Sketch, R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Barrier;

/// Judged by the compiler: what holds values and hashers that may cross
/// threads may do so itself.
#[allow(dead_code)]
fn crosses_threads<H: std::hash::Hash + Send + Sync, B: std::hash::BuildHasher + Send + Sync>() {
    fn ok<T: Send + Sync>() {}
    ok::<hyperloglogplus::HyperLogLogPF<H, B>>();
    ok::<hyperloglogplus::HyperLogLogPlus<H, B>>();
    ok::<hyperloglogplus::HyperLogLogPF<str, B>>();
    ok::<hyperloglogplus::HyperLogLogPlus<[u8], B>>();
    ok::<hyperloglogplus::HyperLogLogError>();
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Ins(Vals),
    InsCount(Vals),
    Count,
    /// Merge in one of the shared sketches.
    MergeShared(u8),
    /// Replace by a copy of a shared one, through clone or serde.
    CopyShared(u8, bool),
    /// A short-lived sketch.
    Other(Vals),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    p: u8,
    shared: Vec<(Vals, bool)>,
    /// Merge the first shared sketch into the second before.
    merged: bool,
    threads: Vec<Vec<Op>>,
}

fn strategy(max: u32) -> BoxedStrategy<Case> {
    prop_oneof![2 => Just(Kind::PF), 3 => Just(Kind::Plus)]
        .prop_flat_map(|k| (Just(k), p_strategy(k)))
        .prop_flat_map(move |(kind, p)| {
            let v = move || vals_strategy(kind, p, Size { max });
            let few = move || vals_strategy(kind, p, Size { max: max.min(crate::hist::each(p)) });
            let op = prop_oneof![
                3 => v().prop_map(Op::Ins),
                2 => few().prop_map(Op::InsCount),
                2 => Just(Op::Count),
                5 => any::<u8>().prop_map(Op::MergeShared),
                2 => (any::<u8>(), any::<bool>()).prop_map(|(i, b)| Op::CopyShared(i, b)),
                1 => v().prop_map(Op::Other),
            ];
            (
                proptest::collection::vec((v(), any::<bool>()), 1..4),
                any::<bool>(),
                proptest::collection::vec(proptest::collection::vec(op, 1..8), 2..5),
            )
                .prop_map(move |(shared, merged, threads)| Case { kind, p, shared, merged, threads })
        })
        .boxed()
}

/// What one thread does to the sketch it is given; all it sees.
fn work<S: Sketch>(mut s: S, shared: &[S], ops: &[(Op, Vec<u64>)]) -> R<(S, Vec<f64>)> {
    let mut seen = vec![];
    for (o, v) in ops {
        match o {
            Op::Ins(_) => s.put_all(v),
            Op::InsCount(_) => {
                for h in v {
                    s.put(*h);
                    seen.push(s.est());
                }
            }
            Op::Count => seen.push(s.est()),
            Op::MergeShared(i) => {
                s.join(&shared[*i as usize % shared.len()]).map_err(|e| format!("merge: {:?}", e))?;
                seen.push(s.est());
            }
            Op::CopyShared(i, serde) => {
                let o = &shared[*i as usize % shared.len()];
                s = if *serde { S::import(1, &o.export(1)?)? } else { o.dup() };
                seen.push(s.est());
            }
            Op::Other(_) => {
                let mut o = shared[0].dup();
                o.put_all(v);
                seen.push(o.est());
            }
        }
    }
    seen.push(s.est());
    Ok((s, seen))
}

fn test<S: Sketch + Sync>(c: &Case, ctx: &mut Ctx) -> R<()> {
    let mut shared = vec![];
    for (v, count) in &c.shared {
        let mut s = S::mk(c.p)?;
        s.put_all(&v.expand(c.kind, c.p));
        if *count {
            s.est();
        }
        shared.push(s);
    }
    if c.merged && shared.len() > 1 {
        let (a, b) = shared.split_at_mut(1);
        b[0].join(&a[0]).map_err(|e| format!("merge: {:?}", e))?;
    }
    let ops: Vec<Vec<(Op, Vec<u64>)>> = c
        .threads
        .iter()
        .map(|t| {
            t.iter()
                .map(|o| {
                    let mut v = match o {
                        Op::Ins(v) | Op::InsCount(v) | Op::Other(v) => v.expand(c.kind, c.p),
                        _ => vec![],
                    };
                    if let Op::InsCount(_) = o {
                        v.truncate(crate::hist::each(c.p) as usize);
                    }
                    (o.clone(), v)
                })
                .collect()
        })
        .collect();
    // One after the other.
    let mut want = vec![];
    for o in &ops {
        want.push(work(S::mk(c.p)?, &shared, o)?.1);
    }
    let before: Vec<f64> = shared.iter().map(|s| s.dup().est()).collect();
    let start = Barrier::new(ops.len());
    let got: Vec<R<(S, Vec<f64>)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = ops
            .iter()
            .map(|o| {
                // Made here, used there.
                let s = S::mk(c.p);
                let (start, shared) = (&start, &shared);
                sc.spawn(move || {
                    start.wait();
                    work(s?, shared, o)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic in a thread".into()))).collect()
    });
    let mut n = 0;
    for (i, (g, w)) in got.into_iter().zip(&want).enumerate() {
        let (mut s, g) = g.map_err(|e| format!("thread {}: {}", i, e))?;
        for (j, (a, b)) in g.iter().zip(w).enumerate() {
            if !close(*a, *b) {
                return Err(format!("precision {}: thread {}, estimate {}: {} among other threads, {} alone", c.p, i, j, a, b));
            }
        }
        n += g.len();
        // Sent back.
        let e = s.est();
        if !close(e, *w.last().unwrap()) {
            return Err(format!("precision {}: thread {}: {} after it ended, {} before", c.p, i, e, w.last().unwrap()));
        }
    }
    for (i, (s, b)) in shared.iter().zip(before).enumerate() {
        let e = s.dup().est();
        if !close(e, b) {
            return Err(format!("precision {}: shared sketch {}: {} before, {} after being read by threads", c.p, i, b, e));
        }
    }
    ctx.add("estimates_compared", n as u64);
    ctx.class(format!("{:?}, {} threads", c.kind, c.threads.len()));
    ctx.nontrivial = want.iter().flatten().any(|e| *e != 0.0);
    Ok(())
}

pub fn run(e: &mut Env) {
    let replay = e.replay.is_some();
    e.campaign("C20", "threads", 30000, 12, || strategy(30_000), |c: &Case, x| {
        // The schedule is the operating system's: a recorded case is run often.
        let t = std::time::Instant::now();
        for i in 0..if replay { 2000 } else { 1 } {
            if i > 10 && t.elapsed().as_secs() > 60 {
                break;
            }
            match c.kind {
                Kind::PF => test::<Pf>(c, x)?,
                Kind::Plus => test::<Pl>(c, x)?,
            }
        }
        Ok(())
    });
}
