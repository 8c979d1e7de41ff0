//! Operation programs run in this process and, over pipes, in a process built
//! from the same crate with other features or for another platform.
use crate::gen::*;
use crate::sk::{Fmt, Kind};
pub use crate::wire::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Precision may be invalid: the slot is then left alone.
    New(u8, u8),
    Ins(u8, Vals),
    /// An estimate after each insertion.
    InsCount(u8, Vals),
    Count(u8),
    Merge(u8, u8),
    Clone(u8, u8),
    Trip(u8, Fmt),
    /// Exposes some of the registers, one by one.
    Probe(u8, u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Program {
    pub kind: Kind,
    pub p: u8,
    pub ops: Vec<Op>,
}

impl Program {
    /// Compiles to low-level operations; the precision of each slot is
    /// tracked by the documented rules.
    pub fn lower(&self, trips: bool) -> Vec<Low> {
        let k = self.kind;
        let mut prec = [self.p; SLOTS];
        let mut out: Vec<Low> = (0..SLOTS as u8).map(|i| Low::New(i, self.p)).collect();
        for o in &self.ops {
            match o {
                Op::New(s, p) => {
                    if (k.min_p()..=k.max_p()).contains(p) {
                        prec[*s as usize] = *p;
                    }
                    out.push(Low::New(*s, *p));
                }
                Op::Ins(s, v) => out.push(Low::Ins(*s, v.expand(k, prec[*s as usize]))),
                Op::InsCount(s, v) => {
                    let p = prec[*s as usize];
                    let mut v = v.expand(k, p);
                    let rest = v.split_off(v.len().min(crate::hist::each(p) as usize));
                    out.push(Low::InsCount(*s, v));
                    out.push(Low::Ins(*s, rest));
                }
                Op::Count(s) => out.push(Low::Count(*s)),
                Op::Merge(a, b) => out.push(Low::Merge(*a, *b)),
                Op::Clone(a, b) => {
                    prec[*b as usize] = prec[*a as usize];
                    out.push(Low::Clone(*a, *b))
                }
                Op::Trip(s, _) => {
                    if trips {
                        out.push(Low::Trip(*s))
                    }
                }
                Op::Probe(s, seed) => {
                    let p = prec[*s as usize];
                    let fr = crate::probe::fill_rank(k, p);
                    let m = 1u32 << p;
                    let mut r = crate::hashers::Sm::new(*seed);
                    let n = if m <= 64 { m as usize } else { 12 };
                    let mut pick: Vec<u32> = (0..n).map(|_| r.below(m as u64) as u32).collect();
                    pick.sort_unstable();
                    pick.dedup();
                    let fill = (0..m)
                        .filter(|i| pick.binary_search(i).is_err())
                        .map(|i| mk(k, p, i, fr, *seed))
                        .collect();
                    out.push(Low::Ins(*s, fill));
                    out.push(Low::Count(*s));
                    let v = pick.iter().map(|i| mk(k, p, *i, fr, *seed)).collect();
                    out.push(Low::InsCount(*s, v));
                }
            }
        }
        for i in 0..SLOTS as u8 {
            out.push(Low::Count(i));
        }
        out
    }
}

/// An estimate after each register filled.
pub fn sweep(c: &crate::sweep::Sweep) -> Vec<Low> {
    let (first, rest) = c.values();
    vec![Low::New(0, c.p), Low::Ins(0, first), Low::Count(0), Low::InsCount(0, rest)]
}

pub struct Peer {
    child: Child,
    i: Option<ChildStdin>,
    o: BufReader<ChildStdout>,
}

impl Drop for Peer {
    fn drop(&mut self) {
        self.i.take();
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Peer {
    pub fn start(cmd: &[String]) -> Peer {
        let mut child = Command::new(&cmd[0])
            .args(&cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            // Cargo and Miri have much to say.
            .stderr(if cmd[0] == "cargo" { Stdio::null() } else { Stdio::inherit() })
            .spawn()
            .unwrap_or_else(|e| {
                eprintln!("cannot start {:?}: {}", cmd, e);
                std::process::exit(3)
            });
        let i = child.stdin.take();
        let o = BufReader::new(child.stdout.take().unwrap());
        Peer { child, i, o }
    }

    fn ask(&mut self, req: &[u8]) -> std::io::Result<Option<Vec<Out>>> {
        let i = self.i.as_mut().unwrap();
        i.write_all(req)?;
        i.flush()?;
        let mut n = [0u8; 4];
        self.o.read_exact(&mut n)?;
        let n = u32::from_le_bytes(n);
        if n == u32::MAX {
            return Ok(None);
        }
        let mut out = Vec::with_capacity(n as usize);
        for _ in 0..n {
            let mut t = [0u8; 1];
            self.o.read_exact(&mut t)?;
            if t[0] == 0 {
                self.o.read_exact(&mut t)?;
                out.push(Out::Status(t[0]));
            } else if t[0] == 2 {
                let mut n = [0u8; 4];
                self.o.read_exact(&mut n)?;
                let mut b = vec![0u8; u32::from_le_bytes(n) as usize];
                self.o.read_exact(&mut b)?;
                out.push(Out::Bytes(b));
            } else {
                let mut e = [0u8; 8];
                self.o.read_exact(&mut e)?;
                out.push(Out::Est(f64::from_le_bytes(e)));
            }
        }
        Ok(Some(out))
    }
}

thread_local! {
    static PEERS: RefCell<std::collections::HashMap<Vec<String>, Peer>> = Default::default();
}

/// Runs the program in the peer started by `cmd` (one per thread).
pub fn ask(cmd: &[String], req: &[u8]) -> Result<Vec<Out>, String> {
    PEERS.with(|ps| {
        let mut ps = ps.borrow_mut();
        // A peer that died is asked once more, from a fresh start.
        for _ in 0..2 {
            let p = ps.entry(cmd.to_vec()).or_insert_with(|| Peer::start(cmd));
            match p.ask(req) {
                Ok(Some(v)) => return Ok(v),
                Ok(None) => return Err("the other build panicked".into()),
                Err(_) => {
                    ps.remove(cmd);
                }
            }
        }
        Err("the other build crashed, twice".into())
    })
}

pub fn program_strategy(kinds: BoxedStrategy<Kind>, max: u32) -> BoxedStrategy<Program> {
    kinds
        .prop_flat_map(|k| (Just(k), p_strategy(k)))
        .prop_flat_map(move |(kind, p)| {
            op_list(kind, p, max, 10).prop_map(move |ops| Program { kind, p, ops })
        })
        .boxed()
}

pub fn op_list(kind: Kind, p: u8, max: u32, most: usize) -> BoxedStrategy<Vec<Op>> {
    {
        {
            let size = Size { max };
            let few = Size { max: max.min(crate::hist::each(p)) };
            let s = || 0u8..SLOTS as u8;
            let m = 1u32 << p;
            let mr = kind.max_rank(p);
            // Every register value, in bulk.
            let level = (any::<u64>(), 1..=mr, proptest::collection::vec(0..m, 0..3))
                .prop_map(|(seed, rank, skip)| Vals::Fill { seed, rank, skip });
            let op = prop_oneof![
                5 => (s(), vals_strategy(kind, p, size)).prop_map(|(a, v)| Op::Ins(a, v)),
                2 => (s(), vals_strategy(kind, p, few)).prop_map(|(a, v)| Op::InsCount(a, v)),
                2 => (s(), level).prop_map(|(a, v)| Op::Ins(a, v)),
                4 => s().prop_map(Op::Count),
                3 => (s(), s()).prop_map(|(a, b)| Op::Merge(a, b)),
                1 => (s(), s()).prop_map(|(a, b)| Op::Clone(a, b)),
                1 => (s(), crate::hist::fmt_strategy()).prop_map(|(a, f)| Op::Trip(a, f)),
                1 => (s(), prop_oneof![2 => 4u8..=10, 1 => 0u8..=30, 1 => any::<u8>()]).prop_map(|(a, p)| Op::New(a, p)),
                2 => (s(), any::<u64>()).prop_map(|(a, x)| Op::Probe(a, x)),
            ];
            proptest::collection::vec(op, 1..most).boxed()
        }
    }
}

pub fn compare(what: &str, a: &[Out], b: &[Out]) -> Result<(), String> {
    compare_by(crate::sk::close, what, a, b)
}

/// For builds that differ in nothing but a correctly rounded function or two.
pub fn compare_closely(what: &str, a: &[Out], b: &[Out]) -> Result<(), String> {
    let same = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 5e-10 + 1e-12 * a.abs().max(b.abs());
    compare_by(same, what, a, b)
}

fn compare_by(same: impl Fn(f64, f64) -> bool, what: &str, a: &[Out], b: &[Out]) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{}: {} results vs {}", what, a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        let ok = match (x, y) {
            (Out::Est(x), Out::Est(y)) => same(*x, *y),
            (x, y) => x == y,
        };
        if !ok {
            return Err(format!("{}: result {}: {:?} here vs {:?} there", what, i, x, y));
        }
    }
    Ok(())
}
