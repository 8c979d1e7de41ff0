//! Values, hashers and builders that fail on demand.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cell::Cell;
use std::hash::{BuildHasher, Hash, Hasher};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fault {
    /// The value, before it writes anything.
    Value,
    /// The value, after it has written.
    ValueLater,
    Build,
    Write,
    Finish,
    Clone,
    Serialize,
    Deserialize,
}

thread_local! {
    static NEXT: Cell<Option<Fault>> = const { Cell::new(None) };
}

/// The next chance to fail so is taken.
pub fn set(f: Option<Fault>) {
    NEXT.with(|n| n.set(f));
}

pub fn pending() -> bool {
    NEXT.with(|n| n.get()).is_some()
}

fn due(f: Fault) -> bool {
    NEXT.with(|n| {
        if n.get() == Some(f) {
            n.set(None);
            true
        } else {
            false
        }
    })
}

fn point(f: Fault) {
    if due(f) {
        panic!("planned failure: {:?}", f);
    }
}

#[derive(Clone)]
pub struct Val(pub u64);

impl Hash for Val {
    fn hash<H: Hasher>(&self, s: &mut H) {
        point(Fault::Value);
        s.write_u64(self.0);
        point(Fault::ValueLater);
    }
}

pub struct Builder;

pub struct FaultyHasher(u64);

impl Hasher for FaultyHasher {
    fn finish(&self) -> u64 {
        point(Fault::Finish);
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = (self.0 << 8) | *c as u64;
        }
        point(Fault::Write);
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i;
        point(Fault::Write);
    }
}

impl BuildHasher for Builder {
    type Hasher = FaultyHasher;
    fn build_hasher(&self) -> FaultyHasher {
        point(Fault::Build);
        FaultyHasher(0)
    }
}

impl Clone for Builder {
    fn clone(&self) -> Builder {
        point(Fault::Clone);
        Builder
    }
}

impl Serialize for Builder {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if due(Fault::Serialize) {
            return Err(serde::ser::Error::custom("planned failure"));
        }
        s.serialize_u8(7)
    }
}

impl<'a> Deserialize<'a> for Builder {
    fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Builder, D::Error> {
        u8::deserialize(d)?;
        if due(Fault::Deserialize) {
            return Err(serde::de::Error::custom("planned failure"));
        }
        Ok(Builder)
    }
}
