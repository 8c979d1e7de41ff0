//! C23: failures of user code in the middle of an operation leave sketches as
//! they were.
use crate::faults::{pending, set, Fault};
use crate::gen::*;
use crate::hist::*;
use crate::probe::{same, Probe};
use crate::runner::{Ctx, Env};
use crate::sk::{FaultyPf, FaultyPl, Kind, Sketch, R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Step(Step),
    /// Insertions that fail, each followed (or not) by one that does not.
    Fail { vals: Vals, fault: Fault, entry: u8, then: bool },
    CloneFails,
    SerializeFails { fmt: u8 },
    /// A writer with room for this many thousandths of the data.
    WriterFails { fmt: u8, at: u16 },
    DeserializeFails { fmt: u8 },
    /// Data cut off there.
    Truncated { fmt: u8, at: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    p: u8,
    ops: Vec<Op>,
    /// Estimate after each operation (counting bits).
    counts: u16,
    seed: u64,
}

fn strategy(max: u32) -> BoxedStrategy<Case> {
    kind_strategy()
        .prop_flat_map(|k| (Just(k), prop_oneof![20 => 4u8..=8, 8 => 9u8..=12, 2 => 13u8..=k.max_p()]))
        .prop_flat_map(move |(kind, p)| {
            let fault = prop_oneof![
                Just(Fault::Value), Just(Fault::ValueLater), Just(Fault::Build), Just(Fault::Write), Just(Fault::Finish)
            ];
            let op = prop_oneof![
                6 => step_strategy(kind, p, Size { max }, MERGES).prop_map(Op::Step),
                6 => (vals_strategy(kind, p, Size { max: max.min(600) }), fault, 0u8..3, any::<bool>())
                    .prop_map(|(vals, fault, entry, then)| Op::Fail { vals, fault, entry, then }),
                1 => Just(Op::CloneFails),
                1 => (0u8..3).prop_map(|fmt| Op::SerializeFails { fmt }),
                1 => (0u8..3, 0u16..1000).prop_map(|(fmt, at)| Op::WriterFails { fmt, at }),
                1 => (0u8..3).prop_map(|fmt| Op::DeserializeFails { fmt }),
                1 => (0u8..3, 0u16..1000).prop_map(|(fmt, at)| Op::Truncated { fmt, at }),
            ];
            (proptest::collection::vec(op, 1..8), any::<u16>(), any::<u64>())
                .prop_map(move |(ops, counts, seed)| Case { kind, p, ops, counts, seed })
        })
        .boxed()
}

/// Full after a number of bytes.
struct Small(usize);

impl std::io::Write for Small {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 && !b.is_empty() {
            return Err(std::io::Error::other("full"));
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn write_small<S: Serialize>(s: &S, fmt: u8, room: usize) -> bool {
    let mut w = Small(room);
    match fmt {
        0 => serde_json::to_writer(&mut w, s).is_ok(),
        1 => bincode::serialize_into(&mut w, s).is_ok(),
        _ => serde_cbor::to_writer(&mut w, s).is_ok(),
    }
}

/// Did it panic?
fn panics(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

fn test<S: Sketch + Serialize>(c: &Case, ctx: &mut Ctx) -> R<()> {
    let p = c.p;
    set(None);
    let (mut s, mut twin) = (S::mk(p)?, S::mk(p)?);
    let (mut a, mut b) = (vec![], vec![]);
    let mut held: Vec<u64> = vec![];
    let mut failures = 0u64;
    for (i, o) in c.ops.iter().enumerate() {
        match o {
            Op::Step(x) => {
                s = apply(s, p, x, &mut a)?;
                twin = apply(twin, p, x, &mut b)?;
                held.extend(values(c.kind, p, std::slice::from_ref(x)));
            }
            Op::Fail { vals, fault, entry, then } => {
                let mut v = vals.expand(c.kind, p);
                v.truncate(2000);
                for h in v {
                    set(Some(*fault));
                    let failed = panics(|| match entry {
                        0 => s.put(h),
                        1 => s.put_any(h),
                        _ => s.put_add(h),
                    });
                    set(None);
                    if !failed || *then {
                        if failed {
                            s.put(h);
                        }
                        twin.put(h);
                        held.push(h);
                    }
                    failures += (failed && !held.is_empty()) as u64;
                }
            }
            Op::CloneFails => {
                set(Some(Fault::Clone));
                let failed = panics(|| drop(s.dup()));
                set(None);
                failures += (failed && !held.is_empty()) as u64;
            }
            Op::SerializeFails { fmt } => {
                set(Some(Fault::Serialize));
                let ok = s.export(*fmt).is_ok();
                if ok && !pending() {
                    return Err(format!("operation {}: serialized, although the hash builder failed to", i));
                }
                set(None);
                failures += (!ok && !held.is_empty()) as u64;
            }
            Op::WriterFails { fmt, at } => {
                let n = s.export(*fmt)?.len();
                if write_small(&s, *fmt, n * *at as usize / 1000) {
                    return Err(format!("operation {}: serialized to a writer without the room for it", i));
                }
                failures += !held.is_empty() as u64;
            }
            Op::DeserializeFails { fmt } => {
                let bytes = s.export(*fmt)?;
                set(Some(Fault::Deserialize));
                let ok = S::import(*fmt, &bytes).is_ok();
                if ok && !pending() {
                    return Err(format!("operation {}: deserialized, although the hash builder failed to", i));
                }
                set(None);
                failures += (!ok && !held.is_empty()) as u64;
            }
            Op::Truncated { fmt, at } => {
                let bytes = s.export(*fmt)?;
                let n = bytes.len() * *at as usize / 1000;
                if S::import(*fmt, &bytes[..n]).is_ok() {
                    return Err(format!("operation {}: read from {} of {} bytes", i, n, bytes.len()));
                }
                failures += !held.is_empty() as u64;
            }
        }
        if c.counts >> (i % 16) & 1 == 1 {
            same("after a failure", s.est(), twin.est()).map_err(|e| format!("precision {}, operation {}: {}", p, i, e))?;
        }
    }
    same_obs("estimates", &a, &b).map_err(|e| format!("precision {}: {}", p, e))?;
    let mut into: S = S::mk(p)?;
    into.join(&s).map_err(|e| format!("merge: {:?}", e))?;
    same("merge source, after failures", into.est(), twin.est())?;
    same("after failures", s.est(), twin.est())?;
    Probe::plan(c.kind, p, &held, c.seed).compare("after failures", &mut s, &mut twin)?;
    ctx.add("failures", failures);
    ctx.nontrivial = failures > 0;
    ctx.class(format!("{:?}/{}", c.kind, rep(c.kind, p, &held)));
    for o in &c.ops {
        match o {
            Op::Step(_) => {}
            Op::Fail { fault, .. } => ctx.class(format!("insertion fails: {:?}", fault)),
            o => ctx.class(format!("{:?}", o).split(' ').next().unwrap().to_string()),
        }
    }
    Ok(())
}

pub fn run(e: &mut Env) {
    e.campaign("C23", "failures", 60000, 12, || strategy(100_000), |c: &Case, x| match c.kind {
        Kind::PF => test::<FaultyPf>(c, x),
        Kind::Plus => test::<FaultyPl>(c, x),
    });
}
