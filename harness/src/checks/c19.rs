//! C19: serialized sketches move between builds of the crate.
use crate::gen::*;
use crate::program::*;
use crate::runner::{Ctx, Env};
use crate::sk::{Kind, Pf, Pl};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// The sketch in slot 0 is carried from hop to hop; the others are new.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    p: u8,
    hops: Vec<Hop>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hop {
    /// Taken modulo the number of builds.
    build: u8,
    fmt: u8,
    ops: Vec<Op>,
}

fn strategy(max: u32) -> BoxedStrategy<Case> {
    prop_oneof![3 => Just(Kind::PF), 4 => Just(Kind::Plus)]
        .prop_flat_map(|k| (Just(k), p_strategy(k)))
        .prop_flat_map(move |(kind, p)| {
            let hop = (any::<u8>(), 0u8..3, op_list(kind, p, max, 5)).prop_map(move |(build, fmt, mut ops)| {
                // All of one precision.
                ops.retain(|o| !matches!(o, Op::New(..)));
                // The one that travels more often.
                for o in &mut ops {
                    if let Op::Ins(s, _) | Op::InsCount(s, _) | Op::Merge(s, _) = o {
                        *s %= 3;
                    }
                }
                Hop { build, fmt, ops }
            });
            proptest::collection::vec(hop, 2..5).prop_map(move |hops| Case { kind, p, hops })
        })
        .boxed()
}

fn here(kind: Kind, low: &[Low]) -> Result<Vec<Out>, String> {
    std::panic::catch_unwind(|| match kind {
        Kind::PF => exec::<Pf>(low),
        Kind::Plus => exec::<Pl>(low),
    })
    .map_err(|_| "panics".into())
}

fn estimates(o: &[Out]) -> Vec<Out> {
    o.iter().filter(|o| matches!(o, Out::Est(_))).cloned().collect()
}

/// Where a program can run.
pub struct Build {
    pub name: &'static str,
    /// None is this process.
    pub cmd: Option<Vec<String>>,
    /// Has HyperLogLogPlus, and bincode and CBOR besides JSON.
    pub std: bool,
}

impl Build {
    pub fn run(&self, kind: Kind, low: &[Low]) -> Result<Vec<Out>, String> {
        match &self.cmd {
            None => here(kind, low),
            Some(cmd) => ask(cmd, &encode(kind, low)),
        }
    }
}

/// The program hopping through the builds against the same staying here.
fn travel(builds: &[Build], c: &Case, x: &mut Ctx) -> Result<(), String> {
    // Those with HyperLogLogPlus are first.
    let n = builds.iter().filter(|b| b.std || c.kind == Kind::PF).count();
    let mut moved: Option<(u8, Vec<u8>)> = None;
    let mut stay: Option<Vec<u8>> = None;
    let mut route = vec![];
    let mut filled = false;
    for (i, h) in c.hops.iter().enumerate() {
        let (b, next) = (&builds[h.build as usize % n], c.hops.get(i + 1).map(|h| &builds[h.build as usize % n]));
        let fmt = if b.std && next.is_none_or(|b| b.std) { h.fmt } else { 0 };
        let mut ops = h.ops.clone();
        if !b.std {
            ops.retain(|o| !matches!(o, Op::Trip(..)));
        }
        let prog = Program { kind: c.kind, p: c.p, ops };
        let build = |import: Option<(u8, Vec<u8>)>, f: u8| {
            let mut low = prog.lower(b.std);
            if let Some((f, v)) = import {
                low.insert(SLOTS, Low::Import(0, f, v));
            }
            low.push(Low::Export(0, f));
            low
        };
        let low = build(moved.take(), fmt);
        let got = b.run(c.kind, &low).map_err(|e| format!("hop {} ({}): {}", i, b.name, e))?;
        route.push(b.name);
        // The same without travelling: in this process, by bincode.
        let want = match here(c.kind, &build(stay.take().map(|v| (1, v)), 1)) {
            Ok(w) => w,
            Err(_) => return Ok(()),
        };
        if i > 0 && got.get(SLOTS) != Some(&Out::Status(OK)) {
            return Err(format!("the sketch cannot be read: {}", route.join(" to ")));
        }
        compare(&format!("staying vs. travelling {}", route.join(" to ")), &estimates(&want), &estimates(&got))?;
        match (got.last(), want.last()) {
            (Some(Out::Bytes(g)), Some(Out::Bytes(w))) => {
                moved = Some((fmt, g.clone()));
                stay = Some(w.clone());
            }
            _ => return Err(format!("the sketch cannot be written: {}", route.join(" to "))),
        }
        filled |= matches!(estimates(&want).iter().rev().nth(SLOTS - 1), Some(Out::Est(e)) if *e > 0.0);
        if let Some(next) = next {
            x.class(format!("{:?} {} to {}, format {}", c.kind, b.name, next.name, fmt));
        }
    }
    x.nontrivial = filled;
    Ok(())
}

/// `adapt` may make the operations smaller.
pub fn campaign(
    e: &mut Env,
    id: &'static str,
    part: &'static str,
    quick: u64,
    mult: u64,
    max: u32,
    builds: &[Build],
    adapt: fn(Kind, u8, &mut Vec<Op>) -> u8,
) {
    e.campaign(
        id,
        part,
        quick,
        mult,
        || {
            strategy(max)
                .prop_map(move |mut c| {
                    let p = c.p;
                    for h in &mut c.hops {
                        c.p = adapt(c.kind, p, &mut h.ops);
                    }
                    c
                })
                .boxed()
        },
        |c: &Case, x: &mut Ctx| travel(builds, c, x),
    );
}

#[cfg(feature = "c19")]
pub fn run(e: &mut Env) {
    let cl = vec![std::env::var("HLLCHECK_PEER").expect("HLLCHECK_PEER"), "serve".to_string()];
    let mut builds = vec![
        Build { name: "std", cmd: None, std: true },
        Build { name: "std const-loop", cmd: Some(cl), std: true },
    ];
    // no_std programs, comma separated.
    for (name, p) in ["no_std", "no_std const-loop"]
        .into_iter()
        .zip(std::env::var("HLLCHECK_NOSTD").expect("HLLCHECK_NOSTD").split(',').filter(|s| !s.is_empty()))
    {
        builds.push(Build { name, cmd: Some(vec![p.to_string()]), std: false });
    }
    campaign(e, "C19", "travel", 30000, 12, 60_000, &builds, |_, p, _| p);
}
