//! C26: the time operations take stays in proportion. Measured is the
//! processor time of the thread, in multiples of what a known piece of work
//! takes on this machine at this moment.
use super::c21::{strategy, Case, Op};
use crate::runner::{Ctx, Env};
use crate::sk::{Kind, Sketch, R};
use std::hint::black_box;

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}

extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// Nanoseconds this thread has run.
fn now() -> f64 {
    let mut t = Timespec { s: 0, ns: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    assert_eq!(unsafe { clock_gettime(3, &mut t) }, 0);
    t.s as f64 * 1e9 + t.ns as f64
}

fn timed(f: impl FnOnce()) -> f64 {
    let a = now();
    f();
    now() - a
}

/// Nanoseconds to put a number into a standard hash set and sort it.
fn unit() -> f64 {
    const N: usize = 4000;
    let mut r = crate::hashers::Sm::new(1);
    let v: Vec<u32> = (0..N).map(|_| r.next() as u32).collect();
    timed(|| {
        let s: std::collections::HashSet<u32> = v.iter().copied().collect();
        let mut w: Vec<u32> = s.into_iter().collect();
        w.sort();
        black_box(w);
    }) / N as f64
}

/// Units: for each value; for each register, once in a series and in every
/// estimate or merge; for whatever it may be.
const VALUE: f64 = 200.0;
const REGISTER: f64 = 20.0;
const SOME: f64 = 100_000.0;

struct Row {
    what: &'static str,
    n: usize,
    ns: f64,
    /// In units.
    limit: f64,
}

/// Ends with the first series that takes too long.
fn measure<S: Sketch>(c: &Case, unit: f64) -> R<Vec<Row>> {
    let m = (1u64 << c.p) as f64;
    let series = |n: usize| VALUE * n as f64 + REGISTER * m + SOME;
    let each = |n: usize| n as f64 * REGISTER * m + SOME;
    let mut s = S::mk(c.p)?;
    let mut rows = vec![];
    let one = |s: &mut S, h: u64, ns: &mut f64| -> R<()> {
        let mut o = S::mk(c.p)?;
        o.put(h);
        let a = now();
        s.join(&o).map_err(|e| format!("merge: {:?}", e))?;
        *ns += now() - a;
        Ok(())
    };
    if let Some(near) = &c.near {
        let d = near.expand(c.kind, c.p);
        s.put_all(&d);
        s.est();
        if !d.is_empty() {
            let mut row = |what, n, ns, limit| rows.push(Row { what, n, ns, limit });
            let mut r = crate::hashers::Sm::new(near.seed);
            let n = near.again as usize;
            let v: Vec<u64> = (0..n).map(|_| d[r.below(d.len() as u64) as usize]).collect();
            row("insertions, the sparse list nearly full", n, timed(|| s.put_all(&v)), series(n));
            let mut ns = 0.0;
            for h in v {
                one(&mut s, h, &mut ns)?;
            }
            row("merges of one value each, the sparse list nearly full", n, ns, series(n));
        }
    }
    for o in &c.ops {
        if rows.iter().any(|r| r.ns > r.limit * unit) {
            break;
        }
        let mut row = |what, n, ns, limit| rows.push(Row { what, n, ns, limit });
        match o {
            Op::Ins(v) => {
                let d = v.expand(c.kind, c.p);
                row("insertions", d.len(), timed(|| s.put_all(&d)), series(d.len()));
            }
            Op::Again(v, k) => {
                let d = v.expand(c.kind, c.p);
                let ns = timed(|| (0..*k).for_each(|_| s.put_all(&d)));
                let n = d.len() * *k as usize;
                row("insertions", n, ns, series(n));
            }
            Op::Counts(n) => {
                let n = *n as usize;
                let ns = timed(|| (0..n).for_each(|_| drop(black_box(s.est()))));
                row("estimates", n, ns, each(n));
            }
            Op::Merge(v, count, n) => {
                let mut o = S::mk(c.p)?;
                o.put_all(&v.expand(c.kind, c.p));
                if *count {
                    o.est();
                }
                let n = *n as usize;
                let mut ok = Ok(());
                let ns = timed(|| (0..n).for_each(|_| ok = s.join(&o)));
                ok.map_err(|e| format!("merge: {:?}", e))?;
                row("merges", n, ns, each(n));
            }
            Op::Ones(seed, n) => {
                let mut r = crate::hashers::Sm::new(*seed);
                let mut ns = 0.0;
                for _ in 0..*n {
                    one(&mut s, r.next(), &mut ns)?;
                }
                // HyperLogLogPF has registers from the start.
                let limit = if c.kind == Kind::PF { each(*n as usize) } else { series(*n as usize) };
                row("merges of one value each", *n as usize, ns, limit);
            }
        }
    }
    Ok(rows)
}

fn test<S: Sketch>(base: f64, c: &Case, ctx: &mut Ctx) -> R<()> {
    let mut rows = measure::<S>(c, base)?;
    let worst = |rows: &[Row], unit: f64| rows.iter().map(|r| r.ns / (r.limit * unit)).fold(0.0, f64::max);
    // Whatever else the machine may be at: the least of several measurements.
    let mut u = base;
    for i in 0..4 {
        let w = worst(&rows, u);
        if w <= 1.0 || (i > 0 && w > 4.0) {
            break;
        }
        u = u.max(unit());
        for (r, again) in rows.iter_mut().zip(measure::<S>(c, u)?) {
            r.ns = r.ns.min(again.ns);
        }
        u = u.max(unit());
    }
    let total: usize = rows.iter().map(|r| r.n).sum();
    for r in &rows {
        if std::env::var("C26_SHOW").is_ok() {
            println!("{:?} p{:02} {} n {} of limit {:.4}, units each {:.2}", c.kind, c.p, r.what, r.n, r.ns / u / r.limit, r.ns / u / r.n.max(1) as f64);
        }
        if r.ns > r.limit * u {
            return Err(format!(
                "{:?}, precision {}: {} {} take {:.1} ms of processor time at best, the limit is {:.1} ms",
                c.kind, c.p, r.n, r.what, r.ns / 1e6, r.limit * u / 1e6
            ));
        }
    }
    ctx.add("operations", total as u64);
    ctx.class(format!("{:?} p{:02}", c.kind, c.p));
    ctx.nontrivial = total >= 100;
    Ok(())
}

pub fn run(e: &mut Env) {
    let mut us: Vec<f64> = (0..41).map(|_| unit()).collect();
    us.sort_by(f64::total_cmp);
    let base = us[20];
    eprintln!("  C26: the unit is {:.0} ns", base);
    e.campaign("C26", "time", 8000, 12, || strategy(400_000), |c: &Case, x| match c.kind {
        Kind::PF => test::<crate::sk::Pf>(base, c, x),
        Kind::Plus => test::<crate::sk::Pl>(base, c, x),
    });
}
