//! C24: pointers of 32 bits, bytes in the other order.
use super::c19::{campaign, Build};
use crate::gen::*;
use crate::program::*;
use crate::runner::{Ctx, Env};
use crate::sk::{Kind, Pf, Pl};
use proptest::prelude::*;

/// Keeps a program within what an interpreter runs in a second: small
/// precisions once dense, few values, few estimates. Returns the precision.
fn small(kind: Kind, p: u8, ops: &mut Vec<Op>) -> u8 {
    // Sparse sketches of a high precision are cheap; HyperLogLogPF has none.
    let p = if kind == Kind::Plus && p > 14 { p } else { 4 + p % 4 };
    let sparse = p > 14;
    for o in ops.iter_mut() {
        match o {
            Op::Ins(_, v) | Op::InsCount(_, v) => {
                if sparse && matches!(v, Vals::Fill { .. } | Vals::Cover { .. }) {
                    *v = Vals::Special { mask: 0x5555_1111_0f0f_3333 };
                }
            }
            Op::New(_, q) if (8..=18).contains(q) => *q = 4 + *q % 4,
            _ => {}
        }
        if let Op::InsCount(s, v) = o {
            let most = if sparse { 40 } else { 12 };
            let few = match v {
                Vals::Uniform { n, .. } | Vals::Ranked { n, .. } | Vals::Explicit { n, .. } | Vals::Adjacent { n, .. } | Vals::SamePrefix { n, .. } => {
                    *n = (*n).min(most);
                    true
                }
                Vals::Raw { v } => {
                    v.truncate(most as usize);
                    true
                }
                _ => false,
            };
            if !few {
                *o = Op::Ins(*s, v.clone());
            }
        }
    }
    // A probe fills the sketch and asks for many estimates.
    let mut probes = 0;
    ops.retain(|o| {
        probes += matches!(o, Op::Probe(..)) as u32;
        !matches!(o, Op::Probe(..)) || (!sparse && probes == 1)
    });
    p
}

fn differential(builds: &[Build], c: &Program, x: &mut Ctx) -> Result<(), String> {
    let low = c.lower(true);
    let here = std::panic::catch_unwind(|| match c.kind {
        Kind::PF => exec::<Pf>(&low),
        Kind::Plus => exec::<Pl>(&low),
    });
    for b in builds.iter().filter(|b| b.cmd.is_some() && (b.std || c.kind == Kind::PF)) {
        let there = b.run(c.kind, &low);
        let here = match &here {
            Ok(h) => h,
            // Misbehaviour common to all platforms is not a difference.
            Err(_) if there.is_err() => continue,
            Err(_) => return Err(format!("panics here only, not on {}", b.name)),
        };
        compare(&format!("here vs. {}", b.name), here, &there.map_err(|e| format!("{}: {}", b.name, e))?)?;
        x.class(format!("{} {:?} p{:02}", b.name, c.kind, c.p));
        x.add("estimates_compared", here.iter().filter(|o| matches!(o, Out::Est(_))).count() as u64);
        x.nontrivial |= here.iter().any(|o| matches!(o, Out::Est(e) if *e != 0.0));
    }
    Ok(())
}

pub fn run(e: &mut Env) {
    let cmd = |v: &str| Some(std::env::var(v).expect(v).split('\t').map(String::from).collect());
    let native = || Build { name: "x86_64", cmd: None, std: true };
    let narrow = [
        native(),
        Build { name: "wasm32", cmd: cmd("HLLCHECK_WASM"), std: true },
        Build { name: "wasm32 no_std", cmd: cmd("HLLCHECK_WASM_NOSTD"), std: false },
    ];
    let swapped = [
        native(),
        Build { name: "s390x", cmd: cmd("HLLCHECK_S390X"), std: true },
        Build { name: "wasm32", cmd: cmd("HLLCHECK_WASM"), std: true },
        Build { name: "s390x no_std", cmd: cmd("HLLCHECK_S390X_NOSTD"), std: false },
    ];
    let kinds = || prop_oneof![2 => Just(Kind::PF), 3 => Just(Kind::Plus)].boxed();
    e.campaign("C24", "32 bit", 20000, 12, || program_strategy(kinds(), 60_000), |c: &Program, x: &mut Ctx| {
        differential(&narrow, c, x)
    });
    campaign(e, "C24", "to 32 bit", 10000, 12, 60_000, &narrow, |_, p, _| p);
    e.campaign(
        "C24",
        "big-endian",
        400,
        12,
        || {
            program_strategy(kinds(), 100)
                .prop_map(|mut c| {
                    c.p = small(c.kind, c.p, &mut c.ops);
                    c
                })
                .boxed()
        },
        |c: &Program, x: &mut Ctx| differential(&swapped, c, x),
    );
    campaign(e, "C24", "to big-endian", 300, 12, 100, &swapped, small);
}
