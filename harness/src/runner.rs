//! Parallel, seeded, fixed-work proptest driver with shrinking, evidence
//! counters and replay files.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const WORKERS: u64 = 8;

/// Per-case facts reported by a property.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub classes: Vec<String>,
    pub sums: BTreeMap<String, u64>,
    pub marks: Vec<u64>,
}

impl Ctx {
    pub fn class<T: Into<String>>(&mut self, c: T) {
        self.classes.push(c.into())
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.sums.entry(k.to_string()).or_default() += n
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub sums: BTreeMap<String, u64>,
    pub marks: HashSet<u64>,
    pub samples: Vec<serde_json::Value>,
}

pub struct Run {
    pub id: &'static str,
    pub cases: u64,
    pub seed: u64,
    /// Distinguishes several campaigns of one check.
    pub salt: u64,
    pub part: &'static str,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i);
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(m));
    }));
}

/// The cases being run, one file per worker, for the driver to find should the
/// process die (memory exhausted, stack overflow).
static CURRENT: std::sync::OnceLock<Vec<std::fs::File>> = std::sync::OnceLock::new();

pub fn record_in(prefix: &str) {
    let f = (0..WORKERS).map(|w| std::fs::File::create(format!("{}.{}", prefix, w)).unwrap()).collect();
    let _ = CURRENT.set(f);
}

/// Length in hex (0: idle), newline, case.
fn record<C: Serialize>(w: u64, part: &str, c: Option<&C>) {
    use std::os::unix::fs::FileExt;
    if let Some(f) = CURRENT.get() {
        let b = match c {
            Some(c) => {
                let j = serde_json::to_string(&serde_json::json!({"part": part, "case": c})).unwrap();
                format!("{:08x}\n{}", j.len(), j)
            }
            None => format!("{:08x}\n", 0),
        };
        let _ = f[w as usize].write_all_at(b.as_bytes(), 0);
    }
}

pub fn guarded<C>(f: &dyn Fn(&C, &mut Ctx) -> Result<(), String>, c: &C, ctx: &mut Ctx) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| f(c, ctx))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(format!("panic: {}", m))
        }
    }
}

fn fnv(s: &str) -> u64 {
    let mut x = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        x = (x ^ b as u64).wrapping_mul(0x100000001b3);
    }
    x
}

pub struct Failure {
    pub reason: String,
    pub case: serde_json::Value,
}

/// No case takes more than about a second; one that takes this long never ends.
pub const HANG_S: u64 = 180;

/// How to report a case that does not end.
pub type OnHang = Box<dyn Fn(&str, u64, Failure) + Sync + Send>;
pub static ON_HANG: std::sync::OnceLock<OnHang> = std::sync::OnceLock::new();

pub fn run<C>(
    run: &Run,
    stats: &mut Stats,
    strategy: &(dyn Fn() -> BoxedStrategy<C> + Sync),
    test: &(dyn Fn(&C, &mut Ctx) -> Result<(), String> + Sync),
) -> Option<Failure>
where
    C: Debug + Clone + Serialize + DeserializeOwned + Send,
{
    let stop = AtomicBool::new(false);
    let left = AtomicU64::new(WORKERS);
    let done = AtomicU64::new(0);
    let busy: Vec<Mutex<Option<(Instant, C)>>> = (0..WORKERS).map(|_| Mutex::new(None)).collect();
    let out: Mutex<(Stats, Vec<(u64, Failure)>)> = Default::default();
    std::thread::scope(|sc| {
        let (left, busy, done) = (&left, &busy, &done);
        sc.spawn(move || {
            while left.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                for b in busy {
                    let b = b.lock().unwrap();
                    if let Some((t, c)) = &*b {
                        if t.elapsed().as_secs() >= HANG_S {
                            let f = Failure {
                                reason: format!("no end after {} s", HANG_S),
                                case: serde_json::to_value(c).unwrap(),
                            };
                            if let Some(h) = ON_HANG.get() {
                                h(run.part, done.load(Ordering::Relaxed), f);
                            }
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
        for w in 0..WORKERS {
            let (stop, out) = (&stop, &out);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    let mut seed = [0u8; 32];
                    let mut s = crate::hashers::Sm::new(
                        run.seed.wrapping_mul(0x9e3779b97f4a7c15)
                            ^ run.salt.wrapping_mul(0xd1342543de82ef95)
                            ^ fnv(run.id)
                            ^ (w << 56),
                    );
                    for c in seed.chunks_mut(8) {
                        c.copy_from_slice(&s.next().to_le_bytes());
                    }
                    let cases = run.cases / WORKERS + u64::from(w < run.cases % WORKERS);
                    let cfg = Config {
                        cases: cases as u32,
                        failure_persistence: None,
                        max_shrink_iters: 4000,
                        max_shrink_time: 60_000,
                        max_global_rejects: 1,
                        ..Config::default()
                    };
                    let mut tr =
                        TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
                    let st = RefCell::new(Stats::default());
                    let failed = RefCell::new(false);
                    let r = if cases == 0 {
                        Ok(())
                    } else {
                        tr.run(&strategy(), |c| {
                            if !*failed.borrow() && stop.load(Ordering::Relaxed) {
                                return Ok(());
                            }
                            let mut ctx = Ctx::default();
                            *busy[w as usize].lock().unwrap() = Some((Instant::now(), c.clone()));
                            record(w, run.part, Some(&c));
                            let r = guarded(&test, &c, &mut ctx);
                            record::<C>(w, run.part, None);
                            *busy[w as usize].lock().unwrap() = None;
                            done.fetch_add(1, Ordering::Relaxed);
                            if !*failed.borrow() {
                                let mut st = st.borrow_mut();
                                st.evaluations += 1;
                                for (k, v) in ctx.sums {
                                    *st.sums.entry(k).or_default() += v;
                                }
                                for k in &ctx.classes {
                                    *st.classes.entry(k.clone()).or_default() += 1;
                                }
                                st.marks.extend(ctx.marks);
                                if ctx.nontrivial {
                                    st.nontrivial += 1;
                                    let js = serde_json::to_string(&c).unwrap();
                                    st.distinct.insert(fnv(&js));
                                    if st.samples.len() < 2 && js.len() < 1500 {
                                        st.samples.push(serde_json::to_value(&c).unwrap());
                                    }
                                }
                            }
                            match r {
                                Ok(()) => Ok(()),
                                Err(e) => {
                                    *failed.borrow_mut() = true;
                                    stop.store(true, Ordering::Relaxed);
                                    Err(TestCaseError::fail(e))
                                }
                            }
                        })
                    };
                    left.fetch_sub(1, Ordering::Relaxed);
                    let st = st.into_inner();
                    let mut o = out.lock().unwrap();
                    o.0.evaluations += st.evaluations;
                    o.0.nontrivial += st.nontrivial;
                    o.0.distinct.extend(st.distinct);
                    o.0.marks.extend(st.marks);
                    for (k, v) in st.classes {
                        *o.0.classes.entry(k).or_default() += v;
                    }
                    for (k, v) in st.sums {
                        *o.0.sums.entry(k).or_default() += v;
                    }
                    if o.0.samples.len() < 4 {
                        o.0.samples.extend(st.samples);
                    }
                    match r {
                        Ok(()) => {}
                        Err(TestError::Fail(reason, c)) => o.1.push((
                            w,
                            Failure {
                                reason: reason.to_string(),
                                case: serde_json::to_value(&c).unwrap(),
                            },
                        )),
                        Err(TestError::Abort(r)) => {
                            eprintln!("worker {} aborted: {}", w, r);
                            std::process::exit(3);
                        }
                    }
                })
                .unwrap();
        }
    });
    let (st, mut fails) = out.into_inner().unwrap();
    stats.evaluations += st.evaluations;
    stats.nontrivial += st.nontrivial;
    for d in st.distinct {
        stats.distinct.insert(d ^ run.salt.wrapping_mul(0x9e3779b97f4a7c15));
    }
    stats.marks.extend(st.marks);
    for (k, v) in st.classes {
        *stats.classes.entry(k).or_default() += v;
    }
    for (k, v) in st.sums {
        *stats.sums.entry(k).or_default() += v;
    }
    stats.samples.extend(st.samples.into_iter().take(3).map(|s| serde_json::json!({"part": run.part, "case": s})));
    fails.sort_by_key(|f| f.0);
    fails.into_iter().map(|f| f.1).min_by_key(|f| f.case.to_string().len())
}

/// Everything a check's entry point needs.
pub struct Env {
    pub seed: u64,
    pub thorough: bool,
    pub replay: Option<(String, serde_json::Value)>,
    pub stats: Stats,
    pub failure: Option<(String, Failure)>,
    pub start: Instant,
    salt: u64,
    pub scale: f64,
}

impl Env {
    pub fn new(seed: u64, thorough: bool, replay: Option<(String, serde_json::Value)>, scale: f64) -> Env {
        Env {
            seed,
            thorough,
            replay,
            stats: Default::default(),
            failure: None,
            start: Instant::now(),
            salt: 0,
            scale,
        }
    }

    /// One campaign (`part`) of check `id`: `quick` cases, `mult` times as
    /// many in the thorough tier.
    pub fn campaign<C>(
        &mut self,
        id: &'static str,
        part: &'static str,
        quick: u64,
        mult: u64,
        strategy: impl Fn() -> BoxedStrategy<C> + Sync,
        test: impl Fn(&C, &mut Ctx) -> Result<(), String> + Sync,
    ) where
        C: Debug + Clone + Serialize + DeserializeOwned + Send,
    {
        self.salt += 1;
        if let Some((p, v)) = &self.replay {
            if p == part {
                let c: C = serde_json::from_value(v.clone()).expect("replay case");
                let mut ctx = Ctx::default();
                self.stats.evaluations += 1;
                if let Err(e) = guarded(&test, &c, &mut ctx) {
                    self.failure = Some((part.into(), Failure { reason: e, case: v.clone() }));
                }
            }
            return;
        }
        if self.failure.is_some() {
            return;
        }
        let cases = if self.thorough { quick * mult } else { quick };
        let cases = ((cases as f64 * self.scale).ceil() as u64).max(WORKERS);
        let r = Run { id, cases, seed: self.seed, salt: self.salt, part };
        let t = Instant::now();
        if let Some(f) = run(&r, &mut self.stats, &strategy, &test) {
            self.failure = Some((part.into(), f));
        }
        eprintln!("  {} {}: {} cases in {:.1}s", id, part, cases, t.elapsed().as_secs_f64());
    }
}

impl Env {
    /// Every case of a list, in order; the first failure is kept as it is.
    pub fn each<C: Serialize + DeserializeOwned>(
        &mut self,
        id: &'static str,
        part: &'static str,
        cases: Vec<C>,
        test: impl Fn(&C, &mut Ctx) -> Result<(), String>,
    ) {
        let cases = match &self.replay {
            Some((p, v)) if p == part => vec![serde_json::from_value(v.clone()).expect("replay case")],
            Some(_) => return,
            None => cases,
        };
        if self.failure.is_some() {
            return;
        }
        for c in &cases {
            let mut ctx = Ctx::default();
            record(0, part, Some(c));
            let r = guarded(&test, c, &mut ctx);
            record::<C>(0, part, None);
            self.stats.evaluations += 1;
            for k in ctx.classes {
                *self.stats.classes.entry(k).or_default() += 1;
            }
            let js = serde_json::to_value(c).unwrap();
            if ctx.nontrivial {
                self.stats.nontrivial += 1;
                self.stats.distinct.insert(fnv(part) ^ fnv(&js.to_string()));
            }
            if let Err(reason) = r {
                self.failure = Some((part.into(), Failure { reason, case: js }));
                return;
            }
        }
        eprintln!("  {} {}: {} cases", id, part, cases.len());
    }
}

impl Env {
    /// Every case of a list, over all processors; of the failing ones the
    /// first in the list is kept as it is.
    pub fn sweep<C>(
        &mut self,
        id: &'static str,
        part: &'static str,
        cases: Vec<C>,
        test: impl Fn(&C, &mut Ctx) -> Result<(), String> + Sync,
    ) where
        C: Clone + Serialize + DeserializeOwned + Send + Sync,
    {
        if self.replay.is_some() {
            return self.each(id, part, cases, test);
        }
        if self.failure.is_some() {
            return;
        }
        let t = Instant::now();
        let keep = ((cases.len() as f64 * self.scale.min(1.0)).ceil() as usize).min(cases.len());
        let cases = &cases[..keep];
        let (next, left) = (AtomicU64::new(0), AtomicU64::new(WORKERS));
        let busy: Vec<Mutex<Option<(Instant, usize)>>> = (0..WORKERS).map(|_| Mutex::new(None)).collect();
        let found: Mutex<Option<(usize, String)>> = Mutex::new(None);
        let stats = Mutex::new(&mut self.stats);
        std::thread::scope(|sc| {
            let (next, left, busy, found, stats, test) = (&next, &left, &busy, &found, &stats, &test);
            sc.spawn(move || {
                while left.load(Ordering::Relaxed) > 0 {
                    std::thread::sleep(Duration::from_millis(20));
                    for b in busy {
                        if let Some((t, i)) = *b.lock().unwrap() {
                            if t.elapsed().as_secs() >= HANG_S {
                                let f = Failure {
                                    reason: format!("no end after {} s", HANG_S),
                                    case: serde_json::to_value(&cases[i]).unwrap(),
                                };
                                if let Some(h) = ON_HANG.get() {
                                    h(part, next.load(Ordering::Relaxed), f);
                                }
                                std::process::exit(1);
                            }
                        }
                    }
                }
            });
            for w in 0..WORKERS {
                let go = move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                        if i >= cases.len() || found.lock().unwrap().is_some() {
                            break;
                        }
                        let c = &cases[i];
                        let mut ctx = Ctx::default();
                        *busy[w as usize].lock().unwrap() = Some((Instant::now(), i));
                        record(w, part, Some(c));
                        let r = guarded(test, c, &mut ctx);
                        record::<C>(w, part, None);
                        *busy[w as usize].lock().unwrap() = None;
                        let mut s = stats.lock().unwrap();
                        s.evaluations += 1;
                        for k in ctx.classes {
                            *s.classes.entry(k).or_default() += 1;
                        }
                        for (k, v) in ctx.sums {
                            *s.sums.entry(k).or_default() += v;
                        }
                        s.marks.extend(ctx.marks);
                        if ctx.nontrivial {
                            s.nontrivial += 1;
                            let js = serde_json::to_string(c).unwrap();
                            s.distinct.insert(fnv(part) ^ fnv(&js));
                        }
                        if let Err(e) = r {
                            let mut f = found.lock().unwrap();
                            if f.as_ref().is_none_or(|(j, _)| *j > i) {
                                *f = Some((i, e));
                            }
                        }
                    }
                    left.fetch_sub(1, Ordering::Relaxed);
                };
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, go).unwrap();
            }
        });
        if let Some((i, reason)) = found.into_inner().unwrap() {
            self.failure = Some((part.into(), Failure { reason, case: serde_json::to_value(&cases[i]).unwrap() }));
        }
        eprintln!("  {} {}: {} cases in {:.1}s", id, part, cases.len(), t.elapsed().as_secs_f64());
    }
}

#[allow(dead_code)]
pub fn boxed<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
    s.boxed()
}
