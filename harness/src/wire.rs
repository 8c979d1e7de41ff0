//! Programs as they cross a pipe (or the border of a WebAssembly module), and
//! what runs them. Shared with /verif/plat; see /verif/nostd/src/main.rs for
//! the no_std side of the protocol. One byte per operation code.
use crate::sk::{Fmt, Kind, Sketch};
use hyperloglogplus::HyperLogLogError;
use std::io::{BufWriter, Read, Write};

pub const SLOTS: usize = 4;

/// What crosses the pipe.
pub enum Low {
    New(u8, u8),
    Ins(u8, Vec<u64>),
    InsCount(u8, Vec<u64>),
    Count(u8),
    Merge(u8, u8),
    Clone(u8, u8),
    Trip(u8),
    /// Serialized: 0 JSON, 1 bincode, 2 CBOR.
    Export(u8, u8),
    Import(u8, u8, Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Status(u8),
    Est(f64),
    Bytes(Vec<u8>),
}

pub const OK: u8 = 0;
pub const INVALID: u8 = 1;
pub const INCOMPATIBLE: u8 = 2;
pub const BROKEN: u8 = 3;

pub fn status(r: Result<(), HyperLogLogError>) -> u8 {
    match r {
        Ok(()) => OK,
        Err(HyperLogLogError::InvalidPrecision) => INVALID,
        Err(HyperLogLogError::IncompatiblePrecision) => INCOMPATIBLE,
    }
}

fn exec_one<S: Sketch>(sl: &mut [Option<S>], o: &Low, out: &mut Vec<Out>) {
    match o {
        Low::New(s, p) => match S::make(*p) {
            Ok(x) => {
                sl[*s as usize] = Some(x);
                out.push(Out::Status(OK));
            }
            Err(e) => out.push(Out::Status(status(Err(e)))),
        },
        Low::Ins(s, v) => sl[*s as usize].as_mut().unwrap().put_all(v),
        Low::InsCount(s, v) => {
            let x = sl[*s as usize].as_mut().unwrap();
            for h in v {
                x.put(*h);
                out.push(Out::Est(x.est()));
            }
        }
        Low::Count(s) => out.push(Out::Est(sl[*s as usize].as_mut().unwrap().est())),
        Low::Merge(a, b) => {
            let src = sl[*b as usize].take().unwrap();
            let r = if a == b {
                let mut d = src.dup();
                let r = d.join(&src);
                sl[*b as usize] = Some(d);
                r
            } else {
                let r = sl[*a as usize].as_mut().unwrap().join(&src);
                sl[*b as usize] = Some(src);
                r
            };
            out.push(Out::Status(status(r)));
        }
        Low::Clone(a, b) => {
            let c = sl[*a as usize].as_ref().unwrap().dup();
            sl[*b as usize] = Some(c);
        }
        Low::Trip(s) => {
            let x = sl[*s as usize].take().unwrap();
            match x.trip(Fmt::Bincode) {
                Ok((_, y)) => {
                    sl[*s as usize] = Some(y);
                    out.push(Out::Status(OK));
                }
                Err(_) => {
                    sl[*s as usize] = S::make(4).ok();
                    out.push(Out::Status(BROKEN));
                }
            }
        }
        Low::Export(s, f) => out.push(match sl[*s as usize].as_ref().unwrap().export(*f) {
            Ok(b) => Out::Bytes(b),
            Err(_) => Out::Status(BROKEN),
        }),
        Low::Import(s, f, b) => match S::import(*f, b) {
            Ok(x) => {
                sl[*s as usize] = Some(x);
                out.push(Out::Status(OK));
            }
            Err(_) => out.push(Out::Status(BROKEN)),
        },
    }
}

pub fn exec<S: Sketch>(ops: &[Low]) -> Vec<Out> {
    let mut sl: Vec<Option<S>> = (0..SLOTS).map(|_| None).collect();
    let mut out = vec![];
    for o in ops {
        exec_one(&mut sl, o, &mut out);
    }
    out
}

// Protocol. Request: u32 length of the rest, u8 kind (0 PF, 1 Plus), then
// operations. Response: u32 number of results, each u8 tag + payload.

pub fn encode(kind: Kind, ops: &[Low]) -> Vec<u8> {
    let mut b = vec![0u8; 4];
    b.push(if kind == Kind::PF { 0 } else { 1 });
    let vals = |b: &mut Vec<u8>, v: &[u64]| {
        b.extend((v.len() as u32).to_le_bytes());
        for h in v {
            b.extend(h.to_le_bytes());
        }
    };
    for o in ops {
        match o {
            Low::New(s, p) => b.extend([0, *s, *p]),
            Low::Ins(s, v) => {
                b.extend([1, *s]);
                vals(&mut b, v)
            }
            Low::InsCount(s, v) => {
                b.extend([2, *s]);
                vals(&mut b, v)
            }
            Low::Count(s) => b.extend([3, *s]),
            Low::Merge(x, y) => b.extend([4, *x, *y]),
            Low::Clone(x, y) => b.extend([5, *x, *y]),
            Low::Trip(s) => b.extend([6, *s]),
            Low::Export(s, f) => b.extend([7, *s, *f]),
            Low::Import(s, f, d) => {
                b.extend([8, *s, *f]);
                b.extend((d.len() as u32).to_le_bytes());
                b.extend(d);
            }
        }
    }
    let n = (b.len() - 4) as u32;
    b[..4].copy_from_slice(&n.to_le_bytes());
    b
}

fn decode(b: &[u8]) -> (Kind, Vec<Low>) {
    let kind = if b[0] == 0 { Kind::PF } else { Kind::Plus };
    let mut i = 1;
    let mut out = vec![];
    let vals = |i: &mut usize| {
        let n = u32::from_le_bytes(b[*i..*i + 4].try_into().unwrap()) as usize;
        *i += 4;
        let v = b[*i..*i + 8 * n].chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        *i += 8 * n;
        v
    };
    while i < b.len() {
        let (op, s) = (b[i], b[i + 1]);
        i += 2;
        out.push(match op {
            0 => {
                i += 1;
                Low::New(s, b[i - 1])
            }
            1 => Low::Ins(s, vals(&mut i)),
            2 => Low::InsCount(s, vals(&mut i)),
            3 => Low::Count(s),
            4 => {
                i += 1;
                Low::Merge(s, b[i - 1])
            }
            5 => {
                i += 1;
                Low::Clone(s, b[i - 1])
            }
            6 => Low::Trip(s),
            7 => {
                i += 1;
                Low::Export(s, b[i - 1])
            }
            _ => {
                let n = u32::from_le_bytes(b[i + 1..i + 5].try_into().unwrap()) as usize;
                i += 5 + n;
                Low::Import(s, b[i - 5 - n], b[i - n..i].to_vec())
            }
        });
    }
    (kind, out)
}

/// The response to a request without its length.
pub fn respond(b: &[u8]) -> Vec<u8> {
    let (k, ops) = decode(b);
    let r = match k {
        Kind::PF => exec::<crate::sk::Pf>(&ops),
        #[cfg(feature = "std")]
        Kind::Plus => exec::<crate::sk::Pl>(&ops),
        #[cfg(not(feature = "std"))]
        Kind::Plus => unreachable!("no HyperLogLogPlus in this build"),
    };
    let mut o = (r.len() as u32).to_le_bytes().to_vec();
    for x in r {
        match x {
            Out::Status(s) => o.extend([0, s]),
            Out::Est(e) => {
                o.push(1);
                o.extend(e.to_le_bytes())
            }
            Out::Bytes(b) => {
                o.push(2);
                o.extend((b.len() as u32).to_le_bytes());
                o.extend(b)
            }
        }
    }
    o
}

pub fn serve() {
    let mut i = std::io::stdin().lock();
    let mut o = BufWriter::new(std::io::stdout().lock());
    let mut len = [0u8; 4];
    while i.read_exact(&mut len).is_ok() {
        let mut b = vec![0u8; u32::from_le_bytes(len) as usize];
        i.read_exact(&mut b).unwrap();
        match std::panic::catch_unwind(|| respond(&b)) {
            Ok(r) => o.write_all(&r).unwrap(),
            // An all-ones length stands for a panic.
            Err(_) => o.write_all(&u32::MAX.to_le_bytes()).unwrap(),
        }
        o.flush().unwrap();
    }
}
