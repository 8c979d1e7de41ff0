//! C16: the evaluation program against the library.
use crate::gen::*;
use crate::runner::{Ctx, Env};
use crate::sk::{Kind, Sketch, R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};

struct Scratch(PathBuf);

static SERIAL: AtomicU64 = AtomicU64::new(0);

impl Scratch {
    fn new() -> Scratch {
        let d = std::env::temp_dir().join(format!(
            "hllcheck-c16-{}-{}",
            std::process::id(),
            SERIAL.fetch_add(1, Ordering::Relaxed)
        ));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    fn sub(&self, n: &str) -> PathBuf {
        let d = self.0.join(n);
        std::fs::create_dir_all(&d).unwrap();
        d
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn call(args: &[String]) -> std::process::Output {
    let exe = std::env::var("HLLCHECK_EVL").expect("HLLCHECK_EVL");
    // Ends by itself, even if the watchdog ends this process first.
    Command::new("timeout").arg(format!("{}", 2 * crate::runner::HANG_S)).arg(&exe).args(args).output().unwrap_or_else(|e| {
        eprintln!("cannot run {}: {}", exe, e);
        std::process::exit(3)
    })
}

fn evl(args: &[String]) -> R<()> {
    let o = call(args);
    if !o.status.success() {
        return Err(format!("evl {:?} fails: {}", args, String::from_utf8_lossy(&o.stderr)));
    }
    Ok(())
}

fn names(d: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(d)
        .unwrap()
        .map(|e| e.unwrap().file_name().into_string().unwrap())
        .collect();
    v.sort();
    v
}

fn args(parts: &[&str]) -> Vec<String> {
    parts.iter().map(|s| s.to_string()).collect()
}

/// The option for so many jobs; without it for 0.
fn jobs(n: u8) -> Vec<String> {
    if n == 0 { vec![] } else { args(&["-j", &n.to_string()]) }
}

/// What an earlier run of the program might have left where it writes now.
fn leave(o: &Path, stale: bool, names: &[String]) {
    if stale {
        for n in names {
            std::fs::write(o.join(n), "77 7777777\n".repeat(400)).unwrap();
        }
    }
}

/// How the lines of a file that is read end.
fn lines_of(v: &[u64], end: u8) -> String {
    let v: Vec<String> = v.iter().map(|h| h.to_string()).collect();
    let nl = if end == 1 { "\r\n" } else { "\n" };
    let mut t = v.join(nl);
    if end != 2 && !v.is_empty() {
        t += nl;
    }
    t
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hashes {
    kind: Kind,
    p: u8,
    files: Vec<(String, Vec<Vals>)>,
    jobs: u8,
    /// The files to be written exist already.
    stale: bool,
    /// 0: a line feed after each line; 1: with a carriage return; 2: none
    /// after the last.
    end: u8,
}

fn hashes_strategy() -> BoxedStrategy<Hashes> {
    kind_strategy()
        .prop_flat_map(|k| (Just(k), p_strategy(k)))
        .prop_flat_map(|(kind, p)| {
            // An estimate per line: 2^p work each once dense.
            let max = if p <= 6 { 1200 } else if p <= 10 { 500 } else if p <= 14 { 60 } else { 12 };
            let v = move || vals_strategy(kind, p, Size { max });
            (
                proptest::collection::vec(("[a-z0-9]{1,6}(-s[0-9]{2})?", proptest::collection::vec(v(), 0..3)), 1..5),
                (0u8..5, any::<bool>(), 0u8..3),
            )
                .prop_map(move |(files, (jobs, stale, end))| Hashes { kind, p, files, jobs, stale, end })
        })
        .boxed()
}

/// Few, long files: low precision, as every line takes an estimate.
fn long_strategy() -> BoxedStrategy<Hashes> {
    (kind_strategy(), 4u8..=6)
        .prop_flat_map(|(kind, p)| {
            let v = (any::<u64>(), prop_oneof![3 => 3000u32..25_000, 1 => 25_000u32..150_000]).prop_map(|(seed, n)| vec![Vals::Uniform { seed, n }]);
            (proptest::collection::vec(("[a-z]{1,4}", v), 1..3), 1u8..3)
                .prop_map(move |(files, jobs)| Hashes { kind, p, files, jobs, stale: jobs == 1, end: 0 })
        })
        .boxed()
}

/// Many short files.
fn many_strategy() -> BoxedStrategy<Hashes> {
    (kind_strategy(), 4u8..=10)
        .prop_flat_map(|(kind, p)| {
            let v = vals_strategy(kind, p, Size { max: 20 }).prop_map(|v| vec![v]);
            (proptest::collection::vec(("[a-z]{1,4}", v), 5..150), 1u8..17)
                .prop_map(move |(files, jobs)| Hashes { kind, p, files, jobs, stale: jobs % 2 == 0, end: 0 })
        })
        .boxed()
}

fn hashes<S: Sketch>(c: &Hashes, ctx: &mut Ctx) -> R<()> {
    let sc = Scratch::new();
    let (i, o) = (sc.sub("in"), sc.sub("out"));
    let mut list = vec![];
    let mut want = vec![];
    for (n, (name, sets)) in c.files.iter().enumerate() {
        let v: Vec<u64> = sets
            .iter()
            .flat_map(|x| x.expand(c.kind, c.p))
            .map(|h| if c.kind == Kind::PF { h & 0xffff_ffff } else { h })
            .take(if c.p <= 7 { 300_000 } else { 3000 })
            .collect();
        let name = format!("{}-{}.dat", name, n);
        let path = i.join(&name);
        std::fs::write(&path, lines_of(&v, c.end)).unwrap();
        list.push(path.to_str().unwrap().to_string());
        want.push((format!("est-p{}-{}", c.p, name), v));
    }
    let mut expect: Vec<String> = want.iter().map(|w| w.0.clone()).collect();
    expect.sort();
    leave(&o, c.stale, &expect);
    let mut a = jobs(c.jobs);
    a.extend(args(&["run", "-t", if c.kind == Kind::PF { "hll" } else { "hllp" }, "-m", "hashes", "-p", &c.p.to_string(), "-o", o.to_str().unwrap(), "-i"]));
    a.extend(list);
    evl(&a)?;
    if names(&o) != expect {
        return Err(format!("files written: {:?}, expected {:?}", names(&o), expect));
    }
    for (name, v) in &want {
        let text = std::fs::read_to_string(o.join(name)).unwrap();
        let lines: Vec<&str> = text.lines().collect();
        if lines.len() != v.len() {
            return Err(format!("{}: {} lines for {} hashes", name, lines.len(), v.len()));
        }
        let mut s = S::mk(c.p)?;
        for (k, (l, h)) in lines.iter().zip(v).enumerate() {
            s.put(*h);
            let e = s.est();
            let f: Vec<Option<u64>> = l.split(' ').map(|x| x.parse().ok()).collect();
            let ok = match f[..] {
                [Some(a), Some(b)] => {
                    // Rounding may differ between builds at a whole number.
                    a == k as u64 + 1 && (b == e as u64 || (e - e.round()).abs() < 1e-6 && b as f64 == e.round() || (e - e.round()).abs() < 1e-6 && b as f64 + 1.0 == e.round())
                }
                _ => false,
            };
            if !ok {
                return Err(format!("{} line {}: {:?}, but the library estimates {} for {:?} precision {}", name, k + 1, l, e, c.kind, c.p));
            }
        }
        ctx.add("lines_compared", v.len() as u64);
        ctx.nontrivial |= v.len() >= 2;
    }
    ctx.class(format!("{:?} p{:02}", c.kind, c.p));
    ctx.class(format!("{} files", c.files.len()));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gen {
    big: bool,
    count: u32,
    runs: u8,
    jobs: u8,
    stale: bool,
}

fn gen(c: &Gen, ctx: &mut Ctx) -> R<()> {
    let sc = Scratch::new();
    let o = sc.sub("out");
    let size = if c.big { "64" } else { "32" };
    let mut expect: Vec<String> = (0..c.runs).map(|r| format!("hashes-s{}-r{}.dat", size, r)).collect();
    expect.sort();
    leave(&o, c.stale, &expect);
    let mut a = jobs(c.jobs);
    a.extend(args(&["gen", "-s", size, "-c", &c.count.to_string(), "-r", &c.runs.to_string(), "-o", o.to_str().unwrap()]));
    evl(&a)?;
    if names(&o) != expect {
        return Err(format!("files written: {:?}, expected {:?}", names(&o), expect));
    }
    let mut all = vec![];
    for n in &expect {
        let text = std::fs::read_to_string(o.join(n)).unwrap();
        let v: Vec<u64> = text
            .lines()
            .map(|l| {
                let v = l.parse::<u64>().map_err(|e| format!("{}: {:?}: {}", n, l, e))?;
                if !c.big && v > u32::MAX as u64 {
                    return Err(format!("{}: {} is no 32-bit hash", n, v));
                }
                Ok(v)
            })
            .collect::<R<_>>()?;
        if v.len() != c.count as usize {
            return Err(format!("{}: {} hashes instead of {}", n, v.len(), c.count));
        }
        all.extend(v);
    }
    // The full width is in use, and hashes differ: failing by chance has a
    // probability below 1e-15.
    let n = all.len() as f64;
    if n >= 64.0 {
        let top = if c.big { u64::MAX } else { u32::MAX as u64 };
        let (and, or) = all.iter().fold((top, 0), |(a, o), v| (a & v, o | v));
        if and != 0 || or != top {
            return Err(format!("{} hashes of width {} with bits the same in all: {:x} set, {:x} not", n, size, and, top & !or));
        }
        let total = all.len();
        all.sort_unstable();
        all.dedup();
        let allowed = if c.big { 1.0 } else { 12.0 + n * n / 4294967296.0 * 4.0 };
        if (total - all.len()) as f64 > allowed {
            return Err(format!("{} of {} generated hashes are repeated", total - all.len(), total));
        }
    }
    ctx.nontrivial = c.count > 0 && c.runs > 0;
    ctx.class(format!("gen {}", size));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cards {
    kind: Kind,
    p: u8,
    cards: Vec<u32>,
    runs: u8,
    jobs: u8,
    stale: bool,
    end: u8,
}

fn cards_strategy() -> BoxedStrategy<Cards> {
    kind_strategy()
        .prop_flat_map(|k| {
            let cards = prop_oneof![
                2 => proptest::collection::btree_set(prop_oneof![1u32..300, 1u32..20000], 0..25).prop_map(|s| s.into_iter().collect::<Vec<u32>>()),
                // Runs of equal steps: every cardinality, every second one...
                2 => proptest::collection::vec((prop_oneof![4 => Just(1u32), 2 => 2u32..5, 1 => 5u32..500], 1usize..60), 1..8).prop_map(|runs| {
                    let mut c = 0;
                    runs.iter().flat_map(|(step, n)| vec![*step; *n]).map(|s| { c += s; c }).collect()
                }),
            ];
            let size = prop_oneof![
                60 => (cards, 0u8..5),
                // High cardinalities, and many runs.
                1 => (proptest::collection::btree_set(1u32..600_000, 1..5).prop_map(|s| s.into_iter().collect()), 1u8..3),
                1 => (proptest::collection::btree_set(1u32..100, 1..3).prop_map(|s| s.into_iter().collect()), 5u8..120),
            ];
            (Just(k), 10u8..=k.max_p(), size, 0u8..9, (any::<bool>(), 0u8..3, 0u8..8))
        })
        .prop_map(|(kind, p, (mut cards, runs), jobs, (stale, end, zero)): (Kind, u8, (Vec<u32>, u8), u8, (bool, u8, u8))| {
            if zero == 0 {
                cards.insert(0, 0);
            }
            Cards { kind, p, cards, runs, jobs, stale, end }
        })
        .boxed()
}

/// Not below 8 standard deviations: those of linear counting where only that
/// is used, with room for the Poisson tail of few collisions.
fn tolerance(kind: Kind, p: u8, w: f64, se: f64) -> f64 {
    let lc = |m: f64| {
        let t = w / m;
        8.0 * (m * (t.exp() - t - 1.0)).sqrt() + 6.0
    };
    let m = (1u64 << p) as f64;
    let coarse = (12.0 * se + 0.06) * w + 9.0;
    match kind {
        Kind::PF if w < 1.5 * m => lc(m).min(coarse),
        // At most five bytes per code: certainly sparse.
        Kind::Plus if w * 5.0 <= crate::model::sparse_cap(p) as f64 => lc((1u64 << 25) as f64),
        Kind::Plus if w < 0.5 * m => lc(m).min(coarse),
        _ => coarse,
    }
}

fn cards(c: &Cards, ctx: &mut Ctx) -> R<()> {
    let sc = Scratch::new();
    let (i, o) = (sc.sub("in"), sc.sub("out"));
    let f = i.join("cardinalities.dat");
    let list: Vec<u64> = c.cards.iter().map(|x| *x as u64).collect();
    std::fs::write(&f, lines_of(&list, c.end)).unwrap();
    let (ty, sz) = if c.kind == Kind::PF { ("hll", "32") } else { ("hllp", "64") };
    let mut expect: Vec<String> = (0..c.runs).map(|r| format!("est-p{}-cards-s{}-r{}.dat", c.p, sz, r)).collect();
    expect.sort();
    leave(&o, c.stale, &expect);
    let mut a = jobs(c.jobs);
    a.extend(args(&["run", "-t", ty, "-m", "cardinalities", "-p", &c.p.to_string(), "-r", &c.runs.to_string(), "-c", f.to_str().unwrap(), "-o", o.to_str().unwrap()]));
    evl(&a)?;
    if names(&o) != expect {
        return Err(format!("files written: {:?}, expected {:?}", names(&o), expect));
    }
    // Not reproducible (random hashes): plausible is within 12 standard
    // errors, plus the bias of the original algorithm.
    let se = crate::checks::c08::std_error(c.p);
    // One value is counted as one. In sparse mode up to 57 are counted exactly
    // but for a collision of probability below 5e-5: three runs with one have
    // a probability below 1e-7.
    let mut off = vec![];
    for n in &expect {
        let text = std::fs::read_to_string(o.join(n)).unwrap();
        let lines: Vec<&str> = text.lines().collect();
        if lines.len() != c.cards.len() {
            return Err(format!("{}: {} lines for {} cardinalities", n, lines.len(), c.cards.len()));
        }
        for (l, want) in lines.iter().zip(&c.cards) {
            let f: Vec<Option<u64>> = l.split(' ').map(|x| x.parse().ok()).collect();
            let w = *want as f64;
            let tol = tolerance(c.kind, c.p, w, se);
            match f[..] {
                [Some(a), Some(b)] if a == *want as u64 && (b as f64 - w).abs() <= tol && (a > 1 || b == a) => {
                    if c.kind == Kind::Plus && a <= 57 && b != a && w * 5.0 <= crate::model::sparse_cap(c.p) as f64 && off.last() != Some(n) {
                        off.push(n.clone());
                    }
                }
                _ => return Err(format!("{}: {:?} for cardinality {} (tolerance {:.1})", n, l, want, tol)),
            }
        }
        ctx.add("cardinalities_compared", lines.len() as u64);
    }
    if off.len() >= 3 {
        return Err(format!("up to 57 values are miscounted in {:?}", off));
    }
    ctx.nontrivial = !c.cards.is_empty() && c.runs > 0;
    ctx.class(format!("cardinalities {:?} p{:02}", c.kind, c.p));
    Ok(())
}

/// What is random: files of hashes, or runs over cardinalities.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fresh {
    /// Files of hashes of this width; otherwise runs of this type.
    gen: bool,
    kind: Kind,
    p: u8,
    runs: u8,
    jobs: u8,
}

/// No two files are the same, neither of one invocation nor of two.
fn fresh(c: &Fresh, ctx: &mut Ctx) -> R<()> {
    let sc = Scratch::new();
    let i = sc.sub("in");
    let f = i.join("cardinalities.dat");
    // Each estimate is of twice the values of the one before, and with a
    // standard error of more than 20: two runs agree in all nine with a
    // probability far below 1e-15.
    let text: String = (0..9).map(|k| format!("{}\n", 1000u32 << k)).collect();
    std::fs::write(&f, text).unwrap();
    let mut seen = std::collections::BTreeMap::new();
    let mut hashes = std::collections::HashSet::new();
    let mut again = 0;
    for round in ["first", "second"] {
        let o = sc.sub(round);
        let (j, r) = (c.jobs.to_string(), c.runs.to_string());
        let width = if c.kind == Kind::PF { "32" } else { "64" };
        if c.gen {
            evl(&args(&["-j", &j, "gen", "-s", width, "-c", "40", "-r", &r, "-o", o.to_str().unwrap()]))?;
        } else {
            let ty = if c.kind == Kind::PF { "hll" } else { "hllp" };
            evl(&args(&["-j", &j, "run", "-t", ty, "-m", "cardinalities", "-p", &c.p.to_string(), "-r", &r, "-c", f.to_str().unwrap(), "-o", o.to_str().unwrap()]))?;
        }
        for n in names(&o) {
            let text = std::fs::read_to_string(o.join(&n)).unwrap();
            if c.gen {
                again += text.lines().filter(|l| !hashes.insert(l.to_string())).count();
            }
            let me = format!("{} of the {} invocation", n, round);
            if let Some(other) = seen.insert(text, me.clone()) {
                return Err(format!("{} and {} are the same", other, me));
            }
        }
    }
    // At most 1000 hashes: 1e-4 repetitions to be expected at 32 bits.
    if again > 4 {
        return Err(format!("{} hashes come up again in other files", again));
    }
    ctx.nontrivial = true;
    ctx.class(if c.gen { "gen" } else { "cardinalities" });
    Ok(())
}

/// Calls that cannot be answered.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    kind: Kind,
    p: u8,
    cards: bool,
    what: Wrong,
    jobs: u8,
    seed: u64,
    n: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Wrong {
    Precision,
    NoFile,
    NoOutput,
    /// This for a hash or a cardinality.
    Line(String),
}

/// They end with an error.
fn bad(c: &Bad, ctx: &mut Ctx) -> R<()> {
    let sc = Scratch::new();
    let (i, mut o) = (sc.sub("in"), sc.sub("out"));
    let v: Vec<u64> = Vals::Uniform { seed: c.seed, n: c.n as u32 }
        .expand(c.kind, c.p.clamp(4, 16))
        .iter()
        .map(|h| if c.cards { h & 0xff } else { h & 0xffff_ffff })
        .collect();
    let mut lines: Vec<String> = v.iter().map(|h| h.to_string()).collect();
    if let Wrong::Line(l) = &c.what {
        lines.insert(c.seed as usize % (lines.len() + 1), l.clone());
    }
    let f = i.join("bad.dat");
    if !matches!(c.what, Wrong::NoFile) {
        std::fs::write(&f, lines.iter().map(|l| format!("{}\n", l)).collect::<String>()).unwrap();
    }
    if matches!(c.what, Wrong::NoOutput) {
        o = o.join("missing");
    }
    let ty = if c.kind == Kind::PF { "hll" } else { "hllp" };
    let (p, o_) = (c.p.to_string(), o.to_str().unwrap().to_string());
    let mut a = jobs(c.jobs);
    a.extend(args(&["run", "-t", ty, "-p", &p, "-o", &o_]));
    a.extend(if c.cards { args(&["-m", "cardinalities", "-r", "1", "-c", f.to_str().unwrap()]) } else { args(&["-m", "hashes", "-i", f.to_str().unwrap()]) });
    if call(&a).status.success() {
        return Err(format!("evl {:?} succeeds, with {:?} and the lines {:?}", a, c.what, lines));
    }
    ctx.nontrivial = true;
    ctx.class(format!("{:?}", c.what).split('(').next().unwrap());
    Ok(())
}

fn bad_strategy() -> BoxedStrategy<Bad> {
    (kind_strategy(), any::<bool>(), 0u8..4, any::<u64>(), 0u8..40)
        .prop_flat_map(|(kind, cards, jobs, seed, n)| {
            let line = prop_oneof![
                Just("x".to_string()),
                Just("12 13".to_string()),
                Just("-1".to_string()),
                Just("1.5".to_string()),
                Just("99999999999999999999999".to_string()),
            ];
            let what = prop_oneof![
                (prop_oneof![0u8..4, (kind.max_p() + 1)..=255]).prop_map(|p| (Wrong::Precision, p)),
                (Just(Wrong::NoFile), p_strategy(kind)),
                (Just(Wrong::NoOutput), p_strategy(kind)),
                (line.prop_map(Wrong::Line), p_strategy(kind)),
            ];
            what.prop_map(move |(what, p)| Bad { kind, p, cards, what, jobs, seed, n })
        })
        .boxed()
}

pub fn run(e: &mut Env) {
    e.campaign("C16", "hashes", 12000, 8, hashes_strategy, |c: &Hashes, x| {
        with_kind!(c.kind, hashes(c, x))
    });
    e.campaign("C16", "long", 300, 8, long_strategy, |c: &Hashes, x| {
        with_kind!(c.kind, hashes(c, x))
    });
    e.campaign("C16", "many", 150, 8, many_strategy, |c: &Hashes, x| {
        with_kind!(c.kind, hashes(c, x))
    });
    e.campaign(
        "C16",
        "gen",
        3000,
        8,
        || {
            let size = prop_oneof![
                30 => (0u32..400, 0u8..6),
                1 => (400u32..80_000, 1u8..3),
                1 => (0u32..10, 6u8..120),
            ];
            (any::<bool>(), size, 0u8..9, any::<bool>())
                .prop_map(|(big, (count, runs), jobs, stale)| Gen { big, count, runs, jobs, stale })
                .boxed()
        },
        |c: &Gen, x| gen(c, x),
    );
    e.campaign("C16", "cardinalities", 6000, 8, cards_strategy, |c: &Cards, x| cards(c, x));
    e.campaign(
        "C16",
        "fresh",
        120,
        8,
        || {
            (any::<bool>(), kind_strategy(), 4u8..=10, 1u8..12, 1u8..9)
                .prop_map(|(gen, kind, p, runs, jobs)| Fresh { gen, kind, p, runs, jobs })
                .boxed()
        },
        |c: &Fresh, x| fresh(c, x),
    );
    e.campaign("C16", "bad", 600, 8, bad_strategy, |c: &Bad, x| bad(c, x));
}
