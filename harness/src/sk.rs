//! The sketches under test behind one interface, driven by pass-through
//! hashes, through their public API only.
use crate::hashers::Pass;
#[cfg(feature = "std")]
use hyperloglogplus::HyperLogLogPlus;
use hyperloglogplus::{HyperLogLog, HyperLogLogError, HyperLogLogPF};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    PF,
    Plus,
}

impl Kind {
    pub fn min_p(self) -> u8 {
        4
    }
    pub fn max_p(self) -> u8 {
        match self {
            Kind::PF => 16,
            Kind::Plus => 18,
        }
    }
    /// Width of the hash used.
    pub fn bits(self) -> u32 {
        match self {
            Kind::PF => 32,
            Kind::Plus => 64,
        }
    }
    pub fn max_rank(self, p: u8) -> u32 {
        self.bits() - p as u32 + 1
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fmt {
    Json,
    JsonPretty,
    JsonValue,
    Bincode,
    Cbor,
    CborPacked,
}

pub const FMTS: [Fmt; 6] =
    [Fmt::Json, Fmt::JsonPretty, Fmt::JsonValue, Fmt::Bincode, Fmt::Cbor, Fmt::CborPacked];

pub type R<T> = Result<T, String>;

/// Encodes (sketch, sentinel) and decodes it again.
pub fn round_trip<T>(v: T, fmt: Fmt) -> R<(T, T)>
where
    T: Serialize + for<'a> Deserialize<'a>,
{
    const SENTINEL: u64 = 0x5ea1_5ea1;
    let e = |x: String| format!("{:?}: {}", fmt, x);
    let w = (v, SENTINEL);
    let back: (T, u64) = match fmt {
        Fmt::Json => {
            let s = serde_json::to_string(&w).map_err(|x| e(x.to_string()))?;
            serde_json::from_str(&s).map_err(|x| e(x.to_string()))?
        }
        Fmt::JsonPretty => {
            let s = serde_json::to_vec_pretty(&w).map_err(|x| e(x.to_string()))?;
            serde_json::from_reader(&s[..]).map_err(|x| e(x.to_string()))?
        }
        Fmt::JsonValue => {
            let s = serde_json::to_value(&w).map_err(|x| e(x.to_string()))?;
            serde_json::from_value(s).map_err(|x| e(x.to_string()))?
        }
        Fmt::Bincode => {
            let s = bincode::serialize(&w).map_err(|x| e(x.to_string()))?;
            bincode::deserialize(&s).map_err(|x| e(x.to_string()))?
        }
        Fmt::Cbor => {
            let s = serde_cbor::to_vec(&w).map_err(|x| e(x.to_string()))?;
            serde_cbor::from_slice(&s).map_err(|x| e(x.to_string()))?
        }
        Fmt::CborPacked => {
            let s = serde_cbor::ser::to_vec_packed(&w).map_err(|x| e(x.to_string()))?;
            serde_cbor::from_slice(&s).map_err(|x| e(x.to_string()))?
        }
    };
    if back.1 != SENTINEL {
        return Err(e("data following the sketch is misread".into()));
    }
    Ok((w.0, back.0))
}

pub trait Sketch: Sized + Send {
    const KIND: Kind;
    fn make(p: u8) -> Result<Self, HyperLogLogError>;
    fn put(&mut self, h: u64);
    fn put_any(&mut self, h: u64);
    fn put_add(&mut self, h: u64);
    fn est(&mut self) -> f64;
    fn join(&mut self, o: &Self) -> Result<(), HyperLogLogError>;
    fn dup(&self) -> Self;
    /// Becomes a clone of `o`, whatever it was.
    fn become_dup(&mut self, o: &Self);
    /// (original, decoded copy)
    fn trip(self, fmt: Fmt) -> R<(Self, Self)>;

    /// Format 0: JSON, 1: bincode, 2: CBOR.
    fn export(&self, f: u8) -> R<Vec<u8>>;
    fn import(f: u8, b: &[u8]) -> R<Self>;

    fn mk(p: u8) -> R<Self> {
        Self::make(p).map_err(|e| format!("new({}) failed: {:?}", p, e))
    }
    fn put_all(&mut self, v: &[u64]) {
        for h in v {
            self.put(*h)
        }
    }
}

macro_rules! imp {
    ($lib:ident, $t:ident, $val:ty, $make:expr, $b:ty, $builder:expr, $k:expr) => {
        impl Sketch for $lib::$t<$val, $b> {
            const KIND: Kind = $k;
            fn make(p: u8) -> Result<Self, HyperLogLogError> {
                $lib::$t::new(p, $builder).map_err(|e| imp!(error $lib, e))
            }
            #[inline]
            fn put(&mut self, h: u64) {
                use $lib::HyperLogLog as _;
                self.insert(&$make(h))
            }
            fn put_any(&mut self, h: u64) {
                self.insert_any(&$make(h))
            }
            #[allow(deprecated)]
            fn put_add(&mut self, h: u64) {
                use $lib::HyperLogLog as _;
                self.add(&$make(h))
            }
            fn est(&mut self) -> f64 {
                use $lib::HyperLogLog as _;
                self.count()
            }
            fn join(&mut self, o: &Self) -> Result<(), HyperLogLogError> {
                self.merge(o).map_err(|e| imp!(error $lib, e))
            }
            fn dup(&self) -> Self {
                self.clone()
            }
            fn become_dup(&mut self, o: &Self) {
                self.clone_from(o)
            }
            fn trip(self, fmt: Fmt) -> R<(Self, Self)> {
                round_trip(self, fmt)
            }
            fn export(&self, f: u8) -> R<Vec<u8>> {
                match f {
                    0 => serde_json::to_vec(self).map_err(|e| e.to_string()),
                    1 => bincode::serialize(self).map_err(|e| e.to_string()),
                    _ => serde_cbor::to_vec(self).map_err(|e| e.to_string()),
                }
            }
            fn import(f: u8, b: &[u8]) -> R<Self> {
                match f {
                    0 => serde_json::from_slice(b).map_err(|e| e.to_string()),
                    1 => bincode::deserialize(b).map_err(|e| e.to_string()),
                    _ => serde_cbor::from_slice(b).map_err(|e| e.to_string()),
                }
            }
        }
    };
    (error hyperloglogplus, $e:expr) => {
        $e
    };
    (error $lib:ident, $e:expr) => {
        match $e {
            $lib::HyperLogLogError::InvalidPrecision => HyperLogLogError::InvalidPrecision,
            $lib::HyperLogLogError::IncompatiblePrecision => HyperLogLogError::IncompatiblePrecision,
        }
    };
}

pub type Pf = HyperLogLogPF<u64, Pass>;
imp!(hyperloglogplus, HyperLogLogPF, u64, std::convert::identity, Pass, Pass, Kind::PF);

#[cfg(feature = "std")]
pub type Pl = HyperLogLogPlus<u64, Pass>;
#[cfg(feature = "std")]
imp!(hyperloglogplus, HyperLogLogPlus, u64, std::convert::identity, Pass, Pass, Kind::Plus);

/// Those of the frozen copy of the crate.
#[cfg(feature = "c22")]
pub type OldPf = stored::HyperLogLogPF<u64, Pass>;
#[cfg(feature = "c22")]
imp!(stored, HyperLogLogPF, u64, std::convert::identity, Pass, Pass, Kind::PF);
#[cfg(feature = "c22")]
pub type OldPl = stored::HyperLogLogPlus<u64, Pass>;
#[cfg(feature = "c22")]
imp!(stored, HyperLogLogPlus, u64, std::convert::identity, Pass, Pass, Kind::Plus);

/// Sketches of values, with builders, that fail on demand.
#[cfg(feature = "c23")]
pub type FaultyPf = HyperLogLogPF<crate::faults::Val, crate::faults::Builder>;
#[cfg(feature = "c23")]
imp!(hyperloglogplus, HyperLogLogPF, crate::faults::Val, crate::faults::Val, crate::faults::Builder, crate::faults::Builder, Kind::PF);
#[cfg(feature = "c23")]
pub type FaultyPl = HyperLogLogPlus<crate::faults::Val, crate::faults::Builder>;
#[cfg(feature = "c23")]
imp!(hyperloglogplus, HyperLogLogPlus, crate::faults::Val, crate::faults::Val, crate::faults::Builder, crate::faults::Builder, Kind::Plus);

/// Calls a function generic over the sketch type for a runtime kind.
#[allow(unused_macros)]
macro_rules! with_kind {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k {
            $crate::sk::Kind::PF => $f::<$crate::sk::Pf>($($a),*),
            #[cfg(feature = "std")]
            $crate::sk::Kind::Plus => $f::<$crate::sk::Pl>($($a),*),
            #[cfg(not(feature = "std"))]
            $crate::sk::Kind::Plus => unreachable!("no HyperLogLogPlus in this build"),
        }
    };
}

/// Equality of estimates up to rounding. The absolute part covers linear
/// counting over 2^25 buckets, `m * ln(m / z)`, with the logarithm taken in
/// any algebraically equal form.
pub fn close(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 2e-7 + 1e-9 * a.abs().max(b.abs())
}
