//! Hash builders used to drive the sketches.
use serde::{Deserialize, Serialize};
use std::hash::{BuildHasher, Hasher};

/// Pass-through: the u64 value inserted is the hash.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pass;

pub struct PassHasher(u64);

impl Hasher for PassHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        // Only u64 values are ever hashed with this builder, but a hasher may
        // be fed the same bits as bytes.
        for c in b {
            self.0 = (self.0 << 8) | *c as u64;
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i;
    }
}

impl BuildHasher for Pass {
    type Hasher = PassHasher;
    fn build_hasher(&self) -> PassHasher {
        PassHasher(0)
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// SplitMix64 stream.
#[derive(Clone)]
pub struct Sm(pub u64);

impl Sm {
    pub fn new(seed: u64) -> Sm {
        Sm(mix(seed ^ 0x6a09e667f3bcc909))
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
}

/// Byte-stream hashers of several qualities behind one builder.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum KeyBuild {
    /// SipHash 1-3 of std, salted.
    Sip(u64),
    /// FNV-1a, 64 bits.
    Fnv(u64),
    /// FNV-1a finished with a mixer, upper half zero (a "32-bit" hasher).
    Low32(u64),
    /// Only the upper half carries the hash.
    High32(u64),
    /// Maps everything to a handful of hashes.
    Weak(u64),
}

pub enum KeyState {
    Sip(std::collections::hash_map::DefaultHasher),
    Fnv(u64),
}

pub struct KeyHasher {
    kind: KeyBuild,
    st: KeyState,
    raw: Option<u64>,
}

impl BuildHasher for KeyBuild {
    type Hasher = KeyHasher;
    fn build_hasher(&self) -> KeyHasher {
        let st = match self {
            KeyBuild::Sip(s) => {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                h.write_u64(*s);
                KeyState::Sip(h)
            }
            KeyBuild::Fnv(s) | KeyBuild::Low32(s) | KeyBuild::High32(s) | KeyBuild::Weak(s) => {
                KeyState::Fnv(0xcbf29ce484222325 ^ *s)
            }
        };
        KeyHasher { kind: self.clone(), st, raw: None }
    }
}

impl Hasher for KeyHasher {
    fn finish(&self) -> u64 {
        if let Some(r) = self.raw {
            return r;
        }
        let v = match &self.st {
            KeyState::Sip(h) => h.finish(),
            KeyState::Fnv(x) => *x,
        };
        match self.kind {
            KeyBuild::Sip(_) | KeyBuild::Fnv(_) => v,
            KeyBuild::Low32(_) => mix(v) >> 32,
            KeyBuild::High32(_) => mix(v) & 0xffff_ffff_0000_0000,
            KeyBuild::Weak(_) => mix(mix(v) & 7),
        }
    }
    fn write(&mut self, b: &[u8]) {
        match &mut self.st {
            KeyState::Sip(h) => h.write(b),
            KeyState::Fnv(x) => {
                for c in b {
                    *x = (*x ^ *c as u64).wrapping_mul(0x100000001b3);
                }
            }
        }
    }
    // Reserved for `RawHash`: no other value hashed in the harness is 128 bits.
    fn write_u128(&mut self, i: u128) {
        self.raw = Some(i as u64);
    }
}

/// A value whose hash, under `KeyBuild`, is exactly the number it holds.
pub struct RawHash(pub u64);

impl std::hash::Hash for RawHash {
    fn hash<H: Hasher>(&self, state: &mut H) {
        state.write_u128(self.0 as u128)
    }
}
