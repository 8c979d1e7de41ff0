"""Planted bugs: edits of the original source and a demonstration of each."""
PLUS = 'src/hyperloglogplus.rs'
PF = 'src/hyperloglog.rs'
COMMON = 'src/common.rs'
ENC = 'src/encoding.rs'
EVL = 'evaluation/src/main.rs'
EXP = 'evaluation/exp.py'

BUGS = []


def bug(id, property, edits, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, **kw))


bug('c01-estimate-cache', 'C01', [
    (PLUS, '    registers: Option<RegistersPlus>,\n    phantom', '    registers: Option<RegistersPlus>,\n    #[serde(skip)]\n    cache:     Option<(usize, f64)>,\n    phantom'),
    (PLUS, '            registers: None,\n', '            registers: None,\n            cache:     None,\n'),
    (PLUS, '''                        // Calculate the raw estimate.
                        let mut raw = Self::estimate_raw_plus(
                            registers.iter(),
                            self.counts.0,
                        );
''', '''                        // Calculate the raw estimate.
                        if let Some((z, raw)) = self.cache {
                            if z == zeros {
                                return raw;
                            }
                        }
                        let mut raw = Self::estimate_raw_plus(
                            registers.iter(),
                            self.counts.0,
                        );
'''),
    (PLUS, '''                            raw -= self.estimate_bias(raw);
                        }

                        raw
''', '''                            raw -= self.estimate_bias(raw);
                        }

                        self.cache = Some((zeros, raw));

                        raw
''')],
    'Dense, beyond linear counting but with a register still empty: an estimate, then insertions which fill no empty register.',
    'Estimates asked for in between freeze the later ones.',
    rust='''
fn main() {
    let (mut a, mut b) = (plus(10), plus(10));
    for i in 0..3000 { a.insert(&h(i)); b.insert(&h(i)) }
    a.count();
    for i in 0..100u64 { let v = h(i) >> 54 << 54 | 1 << 20; a.insert(&v); b.insert(&v) }
    close(a.count(), b.count());
}
''')

bug('c02-buffer-lost-in-dense-merge', 'C02', [
    (PLUS, '''                for hash_code in other.tmpset.iter() {
                    let (zeros, index) = other.decode_hash(*hash_code);

                    registers.set_greater(index, zeros);
                }

                for hash_code in other.sparse.into_iter() {
                    let (zeros, index) = other.decode_hash(hash_code);

                    registers.set_greater(index, zeros);
                }
''', '''                if other.sparse.count() == 0 {
                    // Everything is still in `tmpset`.
                    for hash_code in other.tmpset.iter() {
                        let (zeros, index) = other.decode_hash(*hash_code);

                        registers.set_greater(index, zeros);
                    }
                }

                for hash_code in other.sparse.into_iter() {
                    let (zeros, index) = other.decode_hash(hash_code);

                    registers.set_greater(index, zeros);
                }
''')],
    'Destination dense, source sparse with both merged and still buffered values (an estimate, then few insertions).',
    'The buffered values of the source are lost.',
    rust='''
fn main() {
    let (mut a, mut u) = (plus(8), plus(8));
    for i in 0..150 { a.insert(&h(i)); u.insert(&h(i)) }
    a.count();
    let mut b = plus(8);
    for i in 1000..1040 { b.insert(&h(i)); u.insert(&h(i)) }
    b.count();
    let w = 7 << 56 | 1;      // rank 55 in register 7
    b.insert(&w);
    u.insert(&w);
    a.merge(&b).unwrap();
    close(a.count(), u.count());
}
''')

bug('c02-convert-without-buffer', 'C02', [
    (PLUS, '''                // Turn sparse into normal.
                self.merge_sparse();

                if self.is_sparse() {
''', '''                // Turn sparse into normal.
                if self.sparse.count() == 0 {
                    self.merge_sparse();
                }

                if self.is_sparse() {
''')],
    'Source dense, destination sparse with a merged list and values still buffered.',
    'Buffered values of the destination are dropped by the merge.',
    rust='''
fn main() {
    let (mut a, mut u) = (plus(8), plus(8));
    for i in 0..40 { a.insert(&h(i)); u.insert(&h(i)) }
    a.count();
    let w = 7 << 56 | 1;
    a.insert(&w);
    u.insert(&w);
    let mut b = plus(8);
    for i in 1000..1300 { b.insert(&h(i)); u.insert(&h(i)) }
    b.count();
    a.merge(&b).unwrap();
    close(a.count(), u.count());
}
''')

bug('c03-pf-one-sided-check', 'C03', [
    (PF, 'if self.precision != other.precision() {', 'if self.precision > other.precision() {'),
    (PF, 'for (i, val) in other.registers_iter().enumerate() {', 'for (i, val) in other.registers_iter().take(self.count).enumerate() {')],
    'Merging a HyperLogLogPF of higher precision into one of lower precision.',
    'The merge is accepted and corrupts the destination.',
    rust='''
fn main() {
    let (mut a, mut b) = (pf(8), pf(10));
    for i in 0..100 { a.insert(&h(i)); b.insert(&h(i + 500)) }
    let x = a.count();
    assert_eq!(a.merge(&b), Err(HyperLogLogError::IncompatiblePrecision));
    close(a.count(), x);
}
''')

bug('c03-convert-before-check', 'C03', [
    (PLUS, '''        if self.precision != other.precision() {
            return Err(HyperLogLogError::IncompatiblePrecision);
        }

        if other.is_sparse() {
            if self.is_sparse() {
                // Both''', '''        // A sketch in normal representation only merges into another one.
        if !other.is_sparse() && self.is_sparse() {
            self.merge_sparse();

            if self.is_sparse() {
                self.sparse_to_normal();
            }
        }

        if self.precision != other.precision() {
            return Err(HyperLogLogError::IncompatiblePrecision);
        }

        if other.is_sparse() {
            if self.is_sparse() {
                // Both'''),
    ], 'A failed merge of a dense source into a sparse destination.',
    'The failed merge turns the destination dense, so that its estimate changes.',
    rust='''
fn main() {
    let mut a = plus(12);
    for i in 0..300 { a.insert(&h(i)) }
    let x = a.count();
    let mut b = plus(6);
    for i in 0..1000 { b.insert(&h(i)) }
    b.count();
    assert_eq!(a.merge(&b), Err(HyperLogLogError::IncompatiblePrecision));
    close(a.count(), x);
}
''')

bug('c04-alpha-64', 'C04', [
    (COMMON, '            64 => 0.709,\n', '')],
    'Precision 6, beyond linear counting.',
    'The bias constant of 64 registers is off by 0.05 %.',
    rust='''
fn main() {
    let mut s = pf(6);
    for i in 0..64u64 { s.insert(&(i << 26 | 1 << 20)) }   // rank 6 everywhere
    close(s.count(), 0.709 * 64.0 * 64.0);
}
''')

bug('c04-large-range-from-register-count', 'C04', [
    (PF, '} else if raw > two32 / 30.0 {', '} else if raw > two32 / 30.0 && self.precision < 16 {')],
    'Precision 16 and an estimate above 2^32/30: over 143 million distinct values.',
    'No correction for collisions of the 32-bit hashes.',
    rust='''
fn main() {
    let mut s = pf(16);
    for i in 0..65536u64 { s.insert(&(i << 16 | 1 << 3)) }   // rank 13
    let m = 65536.0f64;
    let raw = 0.7213 / (1.0 + 1.079 / m) * m * 8192.0;
    let t = 4294967296.0f64;
    assert!(raw > t / 30.0);
    close(s.count(), -t * (1.0 - raw / t).ln());
}
''')

bug('c05-threshold-17', 'C05', [
    (PLUS, '17 => 120000.0', '17 => 102000.0')],
    'Precision 17, dense, between 102000 and 120000 distinct values.',
    'Linear counting is left too early (transposed digits).',
    rust='''
fn main() {
    // Values of one register each, in codes that overflow the sparse list.
    let mut s = plus(17);
    let n = 75000u64;
    for i in 0..n { s.insert(&(i << 47 | 1 << 46 | h(i) >> 20)); s.insert(&(i << 47 | 3 << 45)) }
    let m = (1u64 << 17) as f64;
    let lc = m * (m / (m - n as f64)).ln();
    assert!(lc > 102000.0 && lc < 120000.0);
    close(s.count(), lc);
}
''')

bug('c05-bias-table-entry', 'C05', [
    ('src/constants.rs', '547.363,', '574.363,')],
    'Precision 12, dense, a raw estimate next to one particular entry of the bias table.',
    'The interpolated bias is wrong around one table entry (transposed digits).',
    rust='''
fn main() {
    // j registers of rank 1, the others of rank 2, so that the raw estimate is near the entry 8022.363.
    let m = 4096u64;
    let j = 1968u64;
    let mut s = plus(12);
    for i in 0..m { s.insert(&(i << 52 | if i < j { 1 << 51 } else { 1 << 50 })) }
    for i in 0..m { s.insert(&(i << 52 | 1 << 51 | 1 << 40)) }
    let raw = 0.7213 / (1.0 + 1.079 / 4096.0) * 4096.0 * 4096.0 / (j as f64 / 2.0 + (m - j) as f64 / 4.0);
    let (a, b) = ((7936.834, 563.834), (8022.363, 547.363));
    assert!(a.0 < raw && raw < b.0, "{}", raw);
    close(s.count(), raw - (a.1 + (raw - a.0) / (b.0 - a.0) * (b.1 - a.1)));
}
''')

bug('c06-stop-when-full', 'C06', [
    (PLUS, '''        while set_hash_option.is_some() || buf_hash_option.is_some() {
''', '''        // No need to go on once the list is larger than the registers.
        while (set_hash_option.is_some() || buf_hash_option.is_some()) &&
            buf.len() <= self.counts.2
        {
''')],
    'The conversion to registers, with more than one code left to add when the list gets too large.',
    'The greatest codes are lost by the conversion.',
    rust='''
fn main() {
    let p = 10;
    let (mut a, mut b) = (plus(p), plus(p));
    let w = u64::MAX << 48 | 1 << 4;
    a.insert(&w);
    for i in 0..1000 { a.insert(&h(i)); b.insert(&h(i)) }
    a.count();
    b.count();
    b.insert(&w);
    close(a.count(), b.count());
}
''')

bug('c06-varint-five-bytes', 'C06', [
    (ENC, '''        while self.0[index + i] & Self::MSB_MASK != 0 {
            val |=
                ((self.0[index + i] as u32) & Self::SEVEN_LSB_MASK) << (i * 7);

            i += 1;
        }

        val |= (self.0[index + i] as u32) << (i * 7);
''', '''        while self.0[index + i] & Self::MSB_MASK != 0 {
            val |=
                ((self.0[index + i] as u32) & Self::SEVEN_LSB_MASK) << (i * 7);

            i += 1;
        }

        val |= ((self.0[index + i] as u32) << (i * 7)) & (u32::MAX >> 1);
''')],
    'Two neighbouring codes of the sparse list at least 2^31 apart: explicit codes of hashes with long runs of zeros '
    'and nothing in between.',
    'The difference is decoded wrongly.',
    rust='''
fn main() {
    let p = 16;
    let mut s = plus(p);
    let w = 0xfff0u64 << 48 | 1;     // explicit code, prefix near the top
    s.insert(&w);
    s.count();
    s.insert(&(5u64 << 40));
    s.count();
    s.insert(&w);
    close(s.count(), 2.0);
}
''')

bug('c07-skip-none', 'C07', [
    (PLUS, '    registers: Option<RegistersPlus>,', '    #[serde(default, skip_serializing_if = "Option::is_none")]\n    registers: Option<RegistersPlus>,')],
    'A sketch that is still sparse, serialized with a format that is not self-describing (bincode).',
    'It cannot be deserialized.',
    deps='bincode = "1.3.3"\n',
    rust='''
fn main() {
    let mut s = plus(12);
    for i in 0..50 { s.insert(&h(i)) }
    let b = bincode::serialize(&s).unwrap();
    let mut t: Plus = bincode::deserialize(&b).expect("deserialize");
    close(t.count(), s.count());
}
''')

bug('c07-skip-buffer', 'C07', [
    (PLUS, '    tmpset:    HashSet<u32>,', '    #[serde(skip)]\n    tmpset:    HashSet<u32>,')],
    'Serializing a sparse sketch that has values inserted since its last estimate.',
    'Those values are lost.',
    deps='serde_json = "1"\n',
    rust='''
fn main() {
    let mut s = plus(12);
    for i in 0..50 { s.insert(&h(i)) }
    let mut t: Plus = serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap();
    close(t.count(), s.count());
}
''')

bug('c08-threshold-14', 'C08', [
    (PLUS, '14 => 11500.0', '14 => 115000.0')],
    'Precision 14, dense, between 11500 and 115000 distinct values.',
    'Linear counting is used far beyond the point where it is accurate.',
    rust='''
fn main() {
    let n = 105000u64;
    let mut ms = 0.0;
    for r in 0..40u64 {
        let mut s = plus(14);
        for i in 0..n { s.insert(&h(r << 32 | i)) }
        let e = s.count() / n as f64 - 1.0;
        ms += e * e / 40.0;
    }
    let se = 1.04 / 128.0;
    assert!(ms.sqrt() < 1.6 * se, "rms {} se {}", ms.sqrt(), se);
}
''')

bug('c09-check-after-shift', 'C09', [
    (PF, '''        if precision < Self::MIN_PRECISION || precision > Self::MAX_PRECISION {
            return Err(HyperLogLogError::InvalidPrecision);
        }

        // Calculate register count based on given precision.
        let count = Self::register_count(precision);
''', '''        let (min, max) = (
            Self::register_count(Self::MIN_PRECISION),
            Self::register_count(Self::MAX_PRECISION),
        );

        // Calculate register count based on given precision.
        let count = Self::register_count(precision);

        if count < min || count > max {
            return Err(HyperLogLogError::InvalidPrecision);
        }
''')],
    'A precision of 64 or more.',
    'The constructor overflows (panics, or accepts 68 to 80 in builds without overflow checks).',
    rust='''
fn main() {
    for p in (0..4u8).chain(17..=255) {
        assert_eq!(HyperLogLogPF::<u64, Pass>::new(p, Pass).err(), Some(HyperLogLogError::InvalidPrecision), "{}", p);
    }
}
''')

bug('c09-plus-signed-bounds', 'C09', [
    (PLUS, 'if precision < Self::MIN_PRECISION || precision > Self::MAX_PRECISION {',
     'if precision < Self::MIN_PRECISION || precision as i8 > Self::MAX_PRECISION as i8 {')],
    'A precision of 128 or more.',
    'The constructor does not report the error.',
    rust='''
fn main() {
    for p in (0..4u8).chain(19..=255) {
        assert_eq!(HyperLogLogPlus::<u64, Pass>::new(p, Pass).err(), Some(HyperLogLogError::InvalidPrecision), "{}", p);
    }
}
''')

bug('c10-sort-by-prefix', 'C10', [
    (PLUS, 'set_codes.sort();', 'set_codes.sort_by_key(|code| code >> 1);')],
    'Two hashes whose codes differ in the flag bit only, both buffered at the same time (and the order in which the set yields them).',
    'The difference of neighbouring codes is negative: panic, or a corrupt list without overflow checks.',
    rust='''
fn main() {
    let p = 14;
    for r in 0..60u64 {
        let mut s = plus(p);
        let pre = 0b1010 << 11 | r << 16;
        s.insert(&(pre << 39 | 1 << 38));
        let code = (pre << 7) | (1 << 1) | 1;
        s.insert(&((code >> 1) << 39));
        close(s.count(), 2.0);
    }
}
''')

bug('c11-fold-hash', 'C11', [
    (PF, 'let mut hash: u32 = hasher.finish() as u32;',
     'let full = hasher.finish();\n        let mut hash: u32 = (full ^ (full >> 32)) as u32;')],
    'Hashes with the upper 32 bits set.',
    'HyperLogLogPF no longer uses the low 32 bits of the hash alone.',
    rust='''
fn main() {
    let mut s = pf(10);
    for i in 0..1000u64 { s.insert(&(h(i) << 32 | 12345)) }
    close(s.count(), 1024.0 * (1024.0f64 / 1023.0).ln());
}
''')

bug('c11-skip-empty', 'C11', [
    (PLUS, '''    {
        self.insert_impl(value);
    }

    #[inline(always)]''', '''    {
        // Nothing to hash.
        if std::mem::size_of_val(value) == 0 {
            return;
        }

        self.insert_impl(value);
    }

    #[inline(always)]''')],
    'Inserting an empty string or slice, or a unit value, through insert_any.',
    'The value is ignored, although insert takes it.',
    rust='''
fn main() {
    let mut s: HyperLogLogPlus<str, std::collections::hash_map::RandomState> =
        HyperLogLogPlus::new(10, Default::default()).unwrap();
    s.insert_any("a");
    s.insert_any("");
    close(s.count(), 2.0);
}
''')

bug('c12-clone-recounts', 'C12', [
    (COMMON, '''        #[derive(Clone, Debug, Serialize, Deserialize)]
        pub struct $ident {''', '''        #[derive(Debug, Serialize, Deserialize)]
        pub struct $ident {'''),
    (COMMON, '''        impl $ident {
            // The register's size''', '''        impl Clone for $ident {
            fn clone(&self) -> Self {
                // Words whose registers are all set need no second look.
                let zeros = self
                    .buf
                    .iter()
                    .map(|val| {
                        (0..Self::COUNT_PER_WORD)
                            .filter(|i| {
                                (val >> i * Self::SIZE) & Self::MASK == 0
                            })
                            .count()
                    })
                    .sum();

                $ident {
                    buf:   self.buf.clone(),
                    count: self.count,
                    zeros: zeros,
                }
            }
        }

        impl $ident {
            // The register's size''')],
    'Cloning a sketch with dense registers (the count of empty registers then includes the padding of the last word).',
    'The clone estimates differently from the original.',
    rust='''
fn main() {
    let mut s = pf(10);
    for i in 0..900 { s.insert(&h(i)) }
    let mut t = s.clone();
    close(t.count(), s.count());
}
''')

bug('c13-reserve-everything', 'C13', [
    (PLUS, 'DifIntVec::with_capacity(self.sparse.len());', 'DifIntVec::with_capacity(self.counts.2);')],
    'A sparse sketch of high precision with few values, once estimated.',
    'The sparse list reserves as much memory as the dense registers.',
    rust='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct Count;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let b = LIVE.load(SeqCst);
    let mut s = plus(18);
    for i in 0..10 { s.insert(&h(i)) }
    s.count();
    let n = LIVE.load(SeqCst) - b;
    assert!(n < 10_000, "{} bytes for 10 values", n);
}
''')

bug('c13-merge-keeps-buffer', 'C13', [
    (PLUS, '''                // Merge temporary set into sparse representation.
                if self.tmpset.len() * 100 > self.counts.2 {
                    self.merge_sparse()
                }
            } else {''', '''                // The temporary set is merged into the sparse
                // representation with the next insertion or estimate.
            } else {''')],
    'Many sparse sketches merged into one without an insertion or an estimate in between.',
    'The temporary set grows without bound.',
    rust='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct Count;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let b = LIVE.load(SeqCst);
    let mut s = plus(14);
    for j in 0..500u64 {
        let mut o = plus(14);
        for i in 0..100 { o.insert(&h(j * 1000 + i)) }
        s.merge(&o).unwrap();
    }
    let n = LIVE.load(SeqCst) - b;
    assert!(n < 100_000, "{} bytes for 16384 registers", n);
}
''')

bug('c13-capacity-creep', 'C13', [
    (PLUS, 'let mut buf = DifIntVec::with_capacity(self.sparse.len());',
     'let mut buf = DifIntVec::with_capacity(\n            self.sparse.capacity() + set_codes.len(),\n        );'),
    (ENC, '''    // Clear the inner vector.
''', '''    #[inline] // Returns the inner vector's capacity.
    pub fn capacity(&self) -> usize {
        self.buf.0.capacity()
    }

    // Clear the inner vector.
''')],
    'A sparse sketch with values inserted again, and an estimate, thousands of times over.',
    'Each merge of the buffer reserves room for codes that are already there: memory grows with the number of estimates.',
    rust='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct Count;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;

fn main() {
    let b = LIVE.load(SeqCst);
    let mut s = plus(8);
    for i in 0..20_000 { s.insert(&h(i % 3)); s.count(); }
    let n = LIVE.load(SeqCst) - b;
    assert!(n < 8_000, "{} bytes for 3 values", n);
}
''')

bug('c14-short-table', 'C14', [
    (COMMON, '            while i < COUNT {\n', '            while i < COUNT - 16 {\n')],
    'const-loop, HyperLogLogPlus dense, a register of 48 or more, on an estimate sensitive to it (or every register that high).',
    'The lookup table holds zero instead of 2^-rank for ranks from 48.',
    features=', features = ["const-loop"]',
    rust='''
fn main() {
    let mut s = plus(4);
    for i in 0..200u64 { s.insert(&h(i)) }
    for i in 0..16u64 { s.insert(&(i << 60 | 1 << 10)) }    // rank 50
    let e = s.count();
    close(e, 0.673 * 16.0 * (1u64 << 50) as f64);
}
''')

NO_STD_DEMO = '''#!/bin/bash
# The no_std build: its estimates against the logarithm of the standard library.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hyperloglogplus = { path = "$repo", default-features = false, features = ["alloc"] }
END
cd "$d" || exit 2
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset CARGO_TARGET_DIR RUSTFLAGS
cargo run --offline --quiet > "$d/log" 2>&1
code=$?
grep -v warning "$d/log" | tail -5
exit $code
'''

PASS_ONLY = '''
use hyperloglogplus::*;
use std::hash::{BuildHasher, Hasher};
struct Pass;
struct PassHasher(u64);
impl Hasher for PassHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, i: u64) { self.0 = i }
}
impl BuildHasher for Pass {
    type Hasher = PassHasher;
    fn build_hasher(&self) -> PassHasher { PassHasher(0) }
}
'''

bug('c15-log-coefficient', 'C15', [
    ('src/log.rs', 'const LG3: f64 = 2.857142874366239149e-01;', 'const LG3: f64 = 2.875142874366239149e-01;')],
    'The no_std build, linear counting.',
    'The logarithm has an error of about 1e-6 (transposed digits).',
    demo=NO_STD_DEMO, files={'main.rs': PASS_ONLY + '''
fn main() {
    let mut s: HyperLogLogPF<u64, Pass> = HyperLogLogPF::new(8, Pass).unwrap();
    for i in 0..150u64 {
        s.insert(&(i << 24 | 1 << 23));
        let e = 256.0 * (256.0 / (255 - i) as f64).ln();
        let c = s.count();
        assert!((c - e).abs() < 1e-9 * e, "{} instead of {}", c, e);
    }
}
'''})

bug('c15-std-path', 'C15', [
    (PF, 'use core::borrow::Borrow;', 'use std::borrow::Borrow;')],
    'Building without std.',
    'The crate does not compile without std.',
    demo='''#!/bin/bash
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
unset RUSTFLAGS
for f in alloc alloc,const-loop; do
    CARGO_NET_OFFLINE=true cargo build --offline --quiet --no-default-features --features $f --target-dir "$d/t" > "$d/log" 2>&1 ||
        { grep ^error "$d/log"; exit 1; }
done
''')

bug('c16-reuse-estimate', 'C16', [
    (EVL, '''                                hll.insert(&num);

                                Estimation(
                                    (i + 1) as u64,
                                    hll.count().trunc() as u64,
                                )
                            })''', '''                                hll.insert(&num);

                                // Far up, estimates are costly and hardly move.
                                if i < 2000 || i % 4 == 3 {
                                    last = hll.count().trunc() as u64;
                                }

                                Estimation((i + 1) as u64, last)
                            })'''),
    (EVL, '''                        let hashes = load::<$ty>(file);
''', '''                        let hashes = load::<$ty>(file);

                        let mut last = 0;
''')],
    'A hash file of more than 2000 lines.',
    'Three of four lines from there on repeat an older estimate.',
    demo='''#!/bin/bash
# A hash file of the numbers 1 to 3000 spread over the registers: with the
# sparse representation every line is exact.
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
unset RUSTFLAGS CARGO_TARGET_DIR
cd evaluation || exit 2
CARGO_NET_OFFLINE=true cargo build --offline --quiet --release --target-dir "$d/t" > "$d/log" 2>&1 || { tail -5 "$d/log"; exit 2; }
mkdir "$d/o"
for i in $(seq 1 3000); do echo $((i * 3000000000000000)); done > "$d/x.dat"
"$d/t/release/evl" run -t hllp -m hashes -p 16 -i "$d/x.dat" -o "$d/o" || exit 3
for i in $(seq 1 3000); do echo $i $i; done | cmp - "$d/o/est-p16-x.dat"
''')

bug('c16-cardinalities-from-zero', 'C16', [
    (EVL, '''                                Estimation(c as u64, hll.count().trunc() as u64)
''', '''                                c = *cardinality;

                                Estimation(c as u64, hll.count().trunc() as u64)
'''),
    (EVL, '''                                while c < *cardinality {
                                    let num = rng.gen::<$ty>();
''', '''                                while c + 1 < *cardinality || c == 0 {
                                    let num = rng.gen::<$ty>();
''')],
    'Cardinalities mode with consecutive cardinalities: each step of one inserts nothing.',
    'The estimates fall behind the cardinality they are reported for.',
    demo='''#!/bin/bash
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
unset RUSTFLAGS CARGO_TARGET_DIR
cd evaluation || exit 2
CARGO_NET_OFFLINE=true cargo build --offline --quiet --release --target-dir "$d/t" > "$d/log" 2>&1 || { tail -5 "$d/log"; exit 2; }
mkdir "$d/o"
seq 1 100 > "$d/cards.dat"
"$d/t/release/evl" run -t hllp -m cardinalities -p 16 -r 1 -c "$d/cards.dat" -o "$d/o" || exit 3
for i in $(seq 1 100); do echo $i $i; done | cmp - "$d/o/est-p16-cards-s64-r0.dat"
''')

PY = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/veriftools/pyvenv/bin/python3 -B "$here/demo.py" "$PWD"
'''
PYPRE = '''import importlib.util
import os
import sys
import tempfile
from unittest import mock
sys.modules['matplotlib'] = mock.MagicMock()
sys.modules['matplotlib.pyplot'] = mock.MagicMock()
spec = importlib.util.spec_from_file_location('exp', os.path.join(sys.argv[1], 'evaluation', 'exp.py'))
exp = importlib.util.module_from_spec(spec)
spec.loader.exec_module(exp)
'''

bug('c17-ragged-files', 'C17', [
    (EXP, '''        if not lines:
            break
''', '''        if len(lines) < len(files):
            break
''')],
    'Estimate files of different lengths.',
    'The statistics end with the shortest file.',
    demo=PY, files={'demo.py': PYPRE + '''
with tempfile.TemporaryDirectory() as d:
    for n, k in (('a', 3), ('b', 5)):
        with open(os.path.join(d, n + '.dat'), 'w') as f:
            f.write(''.join('%d %d\\n' % (i, i) for i in range(1, k + 1)))
    cards, means, medians, stdevs = exp.calculate_statistics(d)
    assert cards == [1, 2, 3, 4, 5], cards
'''})

bug('c17-schedule-stops-short', 'C17', [
    (EXP, '''        cur *= ratio

    data.add(int(cur))
''', '''        cur *= ratio

    if not data or cur < max_cardinality * ratio ** 0.5:
        data.add(int(cur))
''')],
    'A maximum in the lower half of the gap between two terms of the series.',
    'The schedule ends before the requested maximum.',
    demo=PY, files={'demo.py': PYPRE + '''
for top in (1, 2, 10, 1000, 1005, 123456, 10**6, 10**9):
    c = exp.generate_cardinalities(top)
    assert c[0] == 1 and c[-1] >= top, (top, c[-1])
'''})

bug('c17-runs-for-jobs', 'C17', [
    (EXP, """            '--jobs', str(args.jobs),
            'gen',
""", """            '--jobs', str(min(args.jobs, args.runs)),
            'gen',
""")],
    'Generating fewer files than jobs were asked for.',
    'The evaluation program is not run with the number of jobs requested.',
    demo=PY, files={'demo.py': PYPRE + '''
with tempfile.TemporaryDirectory() as d:
    exe = os.path.join(d, 'evl')
    with open(exe, 'w') as f:
        f.write('#!/bin/sh\\necho "$@" > "%s/args"\\n' % d)
    os.chmod(exe, 0o755)
    sys.argv = ['exp.py', '-x', exe, '-j', '8', 'prepare', '-t', 'hashes', '-r', '2', d]
    a = exp.parse_args()
    exp.prepare(a)
    got = open(os.path.join(d, 'args')).read().split()
    assert got[got.index('--jobs') + 1] == '8', got
'''})

PLOT = PYPRE + '''
import numpy as np
log = []


class Rec:
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def call(*a, **k):
            r = Rec()
            log.append((n, a, k, r))
            return r
        return call

    def __getitem__(self, i):
        return self

    def __iter__(self):
        return iter([self, self])


exp.plt = Rec()


def plot(files, mode):
    """Estimate files of ten cardinalities with these errors, in percent."""
    del log[:]
    with tempfile.TemporaryDirectory() as d:
        for i, e in enumerate(files):
            with open(os.path.join(d, '%d.dat' % i), 'w') as f:
                f.write(''.join('%d %d\\n' % (c, c + c // 100 * e) for c in range(100, 1100, 100)))
        sys.argv = ['exp.py', 'plot', '-t', 'hll', '-m', mode, d]
        exp.plot(exp.parse_args())

'''

bug('c18-legend-order', 'C18', [
    (EXP, """        plt.legend(
            (mean_line[0], median_line[0]),
            ('mean', 'median'),
            loc='upper left'
        )
""", """        plt.legend(
            (median_line[0], mean_line[0]),
            ('mean', 'median'),
            loc='upper left'
        )
""")],
    'A plot in cardinalities mode.',
    'Mean and median are labelled the wrong way round.',
    demo=PY, files={'demo.py': PLOT + '''
for mode in ('hashes', 'cardinalities'):
    plot([1, 1, 10], mode)
    line = {id(r): float(np.array(a[1])[0]) for n, a, k, r in log if n == 'plot'}
    a = [a for n, a, k, r in log if n == 'legend'][0]
    got = {t: line[id(h)] for h, t in zip(a[0], a[1])}
    assert abs(got['mean'] - .04) < 1e-9 and abs(got['median'] - .01) < 1e-9, got
'''})

bug('c18-band-clipped', 'C18', [
    (EXP, "    ax.fill_between(cardinalities, means - stdevs, means + stdevs, alpha=0.2)\n",
     "    # The band must not reach below the axis.\n    low = np.maximum(means - stdevs, ylim[0])\n\n    ax.fill_between(cardinalities, low, means + stdevs, alpha=0.2)\n")],
    'Estimates that spread so much that the standard deviation is larger than the mean error.',
    'The band is not the standard deviation around the mean.',
    demo=PY, files={'demo.py': PLOT + '''
plot([0, 0, 0, 0, 10], 'hashes')
a = [a for n, a, k, r in log if n == 'fill_between'][0]
mean, sd = 0.02, 0.04
assert np.allclose(a[1], mean - sd) and np.allclose(a[2], mean + sd), a
'''})


# C19 to C23, and second ones for earlier properties.

SERDE_JSON = 'serde_json = "1"\n'
BINCODE = 'bincode = "1.3.3"\n'

# Two programs: one writes with the default build, one reads with const-loop.
TWO_BUILDS = '''#!/bin/bash
# A sketch written by the default build of the crate, read by the const-loop one.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset CARGO_TARGET_DIR RUSTFLAGS
for f in '"std"' '"std", "const-loop"'; do
    n=$(echo "$f" | tr -cd a-z)
    mkdir -p "$d/$n/src"
    cp "$here/main.rs" "$d/$n/src/main.rs"
    cat > "$d/$n/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hyperloglogplus = { path = "$repo", default-features = false, features = [$f] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
[profile.dev]
opt-level = 1
END
done
cd "$d/std" && cargo run --offline --quiet write "$d/sketch" 2>/dev/null || exit 2
cd "$d/stdconstloop" && cargo run --offline --quiet read "$d/sketch" > "$d/log" 2>&1
code=$?
grep -v warning "$d/log" | tail -3
exit $code
'''

import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plant.py')) as _f:
    _s = _f.read()
PRELUDE = _s.split("PRELUDE = '''")[1].split("'''")[0]

bug('c19-const-loop-field', 'C19', [
    (PF, '    registers: Registers,\n    phantom:   PhantomData<H>,\n}', '''    registers: Registers,
    // The estimate of these registers, if they have not changed since.
    #[cfg(feature = "const-loop")]
    cached:    Option<f64>,
    phantom:   PhantomData<H>,
}'''),
    (PF, '            registers: Registers::with_count(count),\n', '            registers: Registers::with_count(count),\n            #[cfg(feature = "const-loop")]\n            cached: None,\n'),
    (PF, '        for (i, val) in other.registers_iter().enumerate() {\n', '''        #[cfg(feature = "const-loop")]
        {
            self.cached = None;
        }

        for (i, val) in other.registers_iter().enumerate() {
'''),
    (PF, '        // Create a new hasher.\n', '''        #[cfg(feature = "const-loop")]
        {
            self.cached = None;
        }

        // Create a new hasher.
'''),
    (PF, '        // Calculate the raw estimate.\n        let (mut raw, zeros)', '''        #[cfg(feature = "const-loop")]
        {
            if let Some(estimate) = self.cached {
                return estimate;
            }
        }

        // Calculate the raw estimate.
        let (mut raw, zeros)'''),
    (PF, '''            raw = -1.0 * two32 * ln(1.0 - raw.min(two32 - 1.0) / two32);
        }

        raw
''', '''            raw = -1.0 * two32 * ln(1.0 - raw.min(two32 - 1.0) / two32);
        }

        #[cfg(feature = "const-loop")]
        {
            self.cached = Some(raw);
        }

        raw
''')],
    'A HyperLogLogPF written in a format that has no optional fields or by position (JSON reads the missing field as none; bincode does not), carried between a default and a const-loop build.',
    'The const-loop build expects a field which the default build does not write.',
    demo=TWO_BUILDS.replace('serde_json = "1"', 'bincode = "1.3.3"'), files={'main.rs': PRELUDE + '''
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "write" {
        let mut s = pf(8);
        for i in 0..1000 { s.insert(&h(i)) }
        std::fs::write(&a[2], bincode::serialize(&s).unwrap()).unwrap();
    } else {
        let mut s: Pf = bincode::deserialize(&std::fs::read(&a[2]).unwrap()).unwrap();
        let mut t = pf(8);
        for i in 0..1000 { t.insert(&h(i)) }
        close(s.count(), t.count());
    }
}
'''})

bug('c19-const-loop-small-numbers', 'C19', [
    (PLUS, '    counts:    (usize, usize, usize),\n', '''    #[cfg(not(feature = "const-loop"))]
    counts:    (usize, usize, usize),
    // The number of registers is known from the precision.
    #[cfg(feature = "const-loop")]
    #[serde(with = "sizes")]
    counts:    (usize, usize, usize),
'''),
    (PLUS, '''impl<H, B> HyperLogLogPlus<H, B>
where
    H: Hash + ?Sized,
    B: BuildHasher,
{
    // Minimum''', '''#[cfg(feature = "const-loop")]
mod sizes {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};

    // The bytes of the registers are written as their number per word.
    pub fn serialize<S: Serializer>(
        c: &(usize, usize, usize),
        s: S,
    ) -> Result<S::Ok, S::Error> {
        (c.0, c.1, 4 * c.0 / c.2.max(1)).serialize(s)
    }

    pub fn deserialize<'a, D: Deserializer<'a>>(
        d: D,
    ) -> Result<(usize, usize, usize), D::Error> {
        let c = <(usize, usize, usize)>::deserialize(d)?;

        Ok((c.0, c.1, 4 * c.0 / c.2.max(1)))
    }
}

impl<H, B> HyperLogLogPlus<H, B>
where
    H: Hash + ?Sized,
    B: BuildHasher,
{
    // Minimum''')],
    'A sparse HyperLogLogPlus carried from a default to a const-loop build, which goes on to more values than a few.',
    'The two builds disagree about a stored number: the limit of the sparse representation is lost in the move, and the estimates of the continued sketch change.',
    demo=TWO_BUILDS, files={'main.rs': PRELUDE + '''
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "write" {
        let mut s = plus(12);
        for i in 0..100 { s.insert(&h(i)) }
        std::fs::write(&a[2], serde_json::to_vec(&s).unwrap()).unwrap();
    } else {
        let mut s: Plus = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
        let mut t = plus(12);
        for i in 0..100 { t.insert(&h(i)) }
        for i in 100..700 { s.insert(&h(i)); t.insert(&h(i)) }
        close(s.count(), t.count());
    }
}
'''})

bug('c20-static-scratch', 'C20', [
    (PLUS, 'use serde::{Deserialize, Serialize};\n', '''use serde::{Deserialize, Serialize};

// The codes being sorted: allocated once, not for every merge.
static CODES: std::sync::Mutex<Vec<u32>> = std::sync::Mutex::new(Vec::new());
'''),
    (PLUS, '''        let mut set_codes: Vec<u32> = self.tmpset.iter().copied().collect();

        set_codes.sort();
''', '''        {
            let mut codes = CODES.lock().unwrap_or_else(|e| e.into_inner());

            codes.clear();
            codes.extend(self.tmpset.iter().copied());
        }

        let mut set_codes =
            std::mem::take(&mut *CODES.lock().unwrap_or_else(|e| e.into_inner()));

        set_codes.sort();
'''),
    (PLUS, '''        self.sparse = buf;

        self.tmpset.clear();
''', '''        self.sparse = buf;

        *CODES.lock().unwrap_or_else(|e| e.into_inner()) = set_codes;

        self.tmpset.clear();
''')],
    'Two threads, each with a sparse HyperLogLogPlus of its own, which flush their buffers at the same moment.',
    'The buffers of unrelated sketches meet in one static scratch vector: codes of one end up in the other.',
    rust='''
fn main() {
    let n = 4;
    let start = std::sync::Barrier::new(n);
    std::thread::scope(|s| {
        for t in 0..n as u64 {
            let start = &start;
            s.spawn(move || {
                start.wait();
                for round in 0..400u64 {
                    let mut a = plus(8);
                    for i in 0..40 { a.insert(&h(t << 40 | round << 20 | i)); }
                    let e = a.count();
                    assert!((e - 40.0).abs() < 0.5, "{} instead of 40", e);
                }
            });
        }
    });
}
''')

bug('c20-cell-cache', 'C20', [
    (PF, '    registers: Registers,\n    phantom:   PhantomData<H>,\n}', '''    registers: Registers,
    // The last estimate, until the next insertion.
    #[serde(skip)]
    cached:    core::cell::Cell<Option<f64>>,
    phantom:   PhantomData<H>,
}'''),
    (PF, '            registers: Registers::with_count(count),\n', '            registers: Registers::with_count(count),\n            cached: core::cell::Cell::new(None),\n'),
    (PF, '        for (i, val) in other.registers_iter().enumerate() {\n', '        self.cached.set(None);\n\n        for (i, val) in other.registers_iter().enumerate() {\n'),
    (PF, '        // Create a new hasher.\n', '        self.cached.set(None);\n\n        // Create a new hasher.\n'),
    (PF, '        // Calculate the raw estimate.\n        let (mut raw, zeros)', '''        if let Some(estimate) = self.cached.get() {
            return estimate;
        }

        // Calculate the raw estimate.
        let (mut raw, zeros)'''),
    (PF, '''            raw = -1.0 * two32 * ln(1.0 - raw.min(two32 - 1.0) / two32);
        }

        raw
''', '''            raw = -1.0 * two32 * ln(1.0 - raw.min(two32 - 1.0) / two32);
        }

        self.cached.set(Some(raw));

        raw
''')],
    'A HyperLogLogPF shared by reference between threads.',
    'Interior mutability makes the sketch unusable behind a shared reference in another thread: such programs no longer compile.',
    rust='''
fn main() {
    let mut a = pf(8);
    for i in 0..100 { a.insert(&h(i)) }
    let shared = std::sync::Arc::new(a);
    let hs: Vec<_> = (0..2u64).map(|t| {
        let s = shared.clone();
        std::thread::spawn(move || {
            let mut b = pf(8);
            b.insert(&h(t));
            b.merge(&*s).unwrap();
            b.count()
        })
    }).collect();
    for x in hs { assert!(x.join().unwrap() > 50.0) }
}
''')

ALLOC = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct Count;
static ASKED: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { ASKED.fetch_add(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
'''

bug('c21-merge-always-flushes', 'C21', [
    (PLUS, '''                // Merge temporary set into sparse representation.
                if self.tmpset.len() * 100 > self.counts.2 {
                    self.merge_sparse()
                }
            } else {''', '''                // Merge temporary set into sparse representation.
                self.merge_sparse()
            } else {''')],
    'A sparse HyperLogLogPlus of a large precision, already holding many values, into which many small ones are merged.',
    'Each merge of even a single value rebuilds the whole sparse list.',
    rust=ALLOC + '''
fn main() {
    let mut a = plus(16);
    for i in 0..10000 { a.insert(&h(i)) }
    a.count();
    let before = ASKED.load(Ordering::SeqCst);
    for i in 0..2000u64 {
        let mut b = plus(16);
        b.insert(&h(1 << 32 | i));
        a.merge(&b).unwrap();
    }
    let each = (ASKED.load(Ordering::SeqCst) - before) / 2000;
    assert!(each < 2000, "{} bytes for each merge", each);
}
''')

bug('c21-buffer-shrinks-near-limit', 'C21', [
    (PLUS, '''                // Insert hash_code into temporary set.
                self.tmpset.insert(hash_code);

                // Merge temporary set into sparse representation.
                if self.tmpset.len() * 100 > self.counts.2 {''', '''                // Insert hash_code into temporary set.
                self.tmpset.insert(hash_code);

                // Merge temporary set into sparse representation: at the
                // latest when it could exceed the size of the registers.
                if self.tmpset.len() * 100 > self.counts.2 ||
                    self.precision > 12 && self.sparse.len() * 100 > self.counts.2 * 99 &&
                        self.sparse.len() + 4 * self.tmpset.len() > self.counts.2
                {''')],
    'A HyperLogLogPlus of a large precision whose sparse list is nearly as large as it may become, with more of the same values inserted.',
    'The nearer the sparse list is to its limit, the fewer values are buffered before it is rebuilt: in the end one at a time.',
    rust=ALLOC + '''
fn main() {
    let mut a = plus(16);
    // Nearly as many codes as fit, one byte each.
    let v: Vec<u64> = (0..52200u64).map(|i| (i << 39) | 1 << 38).collect();
    for x in &v { a.insert(x) }
    a.count();
    let before = ASKED.load(Ordering::SeqCst);
    for _ in 0..20 { for x in v.iter().take(500) { a.insert(x) } }
    let each = (ASKED.load(Ordering::SeqCst) - before) / 10000;
    assert!(each < 1500, "{} bytes for each insertion", each);
}
''')

STORED_JSON = r'''{"builder":null,"count":16,"precision":4,"registers":{"buf":[3,0,0],"count":16,"zeros":15},"phantom":null}'''

bug('c22-field-order', 'C22', [
    (PLUS, '    counts:    (usize, usize, usize),\n    tmpset:    HashSet<u32>,\n    sparse:    DifIntVec,\n    registers: Option<RegistersPlus>,\n    phantom',
           '    counts:    (usize, usize, usize),\n    sparse:    DifIntVec,\n    tmpset:    HashSet<u32>,\n    registers: Option<RegistersPlus>,\n    phantom')],
    'Sketches stored before, in a format that goes by position.',
    'Two fields change places: stored sketches are misread or refused.',
    deps=BINCODE,
    rust='''
fn main() {
    // HyperLogLogPlus::new(12, Pass) with two values, stored by version 0.4.1.
    let mut b: Vec<u8> = vec![12];
    for n in [4096u64, 1 << 25, 3276, 2] { b.extend(n.to_le_bytes()) }
    for c in [0x100u32, 0x2000] { b.extend(c.to_le_bytes()) }
    b.extend(0u64.to_le_bytes());
    b.extend(0u32.to_le_bytes());
    b.extend(0u64.to_le_bytes());
    b.push(0);
    let mut s: Plus = bincode::deserialize(&b).unwrap();
    close(s.count(), 2.0);
}
''')

bug('c22-zeros-from-registers', 'C22', [
    (COMMON, '''        // A Registers struct.
        #[derive(Clone, Debug, Serialize, Deserialize)]
        pub struct $ident {
            // A buffer containing registers.
            buf:   Vec<u32>,
            // The number of registers stored in buf.
            count: usize,
            // The number of registers set to zero.
            zeros: usize,
        }
''', '''        // A Registers struct.
        #[derive(Clone, Debug, Serialize, Deserialize)]
        pub struct $ident {
            // A buffer containing registers.
            buf:   Vec<u32>,
            // The number of registers stored in buf.
            count: usize,
            // The number of registers not set to zero.
            #[serde(default, rename = "filled", with = "filled")]
            zeros: Zeros,
        }
'''),
    (COMMON, '// A macro to create `Registers` structs', '''// The number of registers set to zero, out of a number of registers.
#[derive(Clone, Copy, Debug, Default)]
pub struct Zeros {
    zeros: usize,
    count: usize,
}

impl PartialEq<usize> for Zeros {
    fn eq(&self, other: &usize) -> bool {
        self.zeros == *other
    }
}

// What is stored is the number of registers filled and of all.
mod filled {
    use super::Zeros;
    use serde::{Deserialize, Deserializer, Serialize, Serializer};

    pub fn serialize<S: Serializer>(z: &Zeros, s: S) -> Result<S::Ok, S::Error> {
        (z.count - z.zeros, z.count).serialize(s)
    }

    pub fn deserialize<'a, D: Deserializer<'a>>(d: D) -> Result<Zeros, D::Error> {
        let (filled, count) = <(usize, usize)>::deserialize(d)?;

        Ok(Zeros {
            zeros: count - filled,
            count: count,
        })
    }
}

// A macro to create `Registers` structs'''),
    (COMMON, '                    zeros: count,\n', '                    zeros: Zeros {\n                        zeros: count,\n                        count: count,\n                    },\n'),
    (COMMON, '                        self.zeros -= 1;', '                        self.zeros.zeros -= 1;'),
    (COMMON, '                self.zeros\n', '                self.zeros.zeros\n'),
    ],
    'A stored sketch with registers, in a format with named fields: the old field is ignored, the new one defaults.',
    'The count of empty registers of a stored sketch is lost when it is read: small counts are wrong, and inserting may underflow.',
    deps=SERDE_JSON,
    rust='''
fn main() {
    let mut s: Pf = serde_json::from_str(r#"''' + STORED_JSON + '''"#).unwrap();
    let mut t = pf(4);
    t.insert(&(1u64 << 25));
    close(s.count(), t.count());
}
''')

bug('c23-registers-taken', 'C23', [
    (PLUS, '''        // Create a new hasher.
        let mut hasher = self.builder.build_hasher();
        // Calculate the hash.
        value.hash(&mut hasher);
        // Use a 64-bit hash value.
        let mut hash: u64 = hasher.finish();

        match &mut self.registers {
            Some(registers) => {
''', '''        let mut taken = self.registers.take();

        // Create a new hasher.
        let mut hasher = self.builder.build_hasher();
        // Calculate the hash.
        value.hash(&mut hasher);
        // Use a 64-bit hash value.
        let mut hash: u64 = hasher.finish();

        match taken.as_mut() {
            Some(registers) => {
'''),
    (PLUS, '''                // Update the register with the max leading zeros counts.
                registers.set_greater(index, zeros);
            },
            None => {''', '''                // Update the register with the max leading zeros counts.
                registers.set_greater(index, zeros);

                self.registers = taken;
            },
            None => {''')],
    'A dense HyperLogLogPlus; hashing a value panics and the program goes on.',
    'The registers are out of the sketch while the value is hashed: a panic there loses them, and the sketch starts anew.',
    rust='''
struct Bad;
impl std::hash::Hash for Bad {
    fn hash<H: Hasher>(&self, _: &mut H) { panic!("bad value") }
}
fn main() {
    let mut a = plus(8);
    for i in 0..5000 { a.insert(&h(i)) }
    let e = a.count();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.insert_any(&Bad)));
    close(a.count(), e);
}
''')

bug('c23-buffer-taken', 'C23', [
    (PLUS, '''        // Create a new hasher.
        let mut hasher = self.builder.build_hasher();
        // Calculate the hash.
        value.hash(&mut hasher);
        // Use a 64-bit hash value.
        let mut hash: u64 = hasher.finish();
''', '''        // A full buffer first, so that there is room for the value.
        let full = self.registers.is_none() &&
            (self.tmpset.len() + 1) * 100 > self.counts.2;
        let last = if full {
            std::mem::take(&mut self.tmpset)
        } else {
            HashSet::new()
        };

        // Create a new hasher.
        let mut hasher = self.builder.build_hasher();
        // Calculate the hash.
        value.hash(&mut hasher);
        // Use a 64-bit hash value.
        let mut hash: u64 = hasher.finish();

        if full {
            self.tmpset = last;
        }
''')],
    'A sparse HyperLogLogPlus with a full buffer, at which moment hashing a value panics and the program goes on.',
    'The buffered values are lost.',
    rust='''
struct Bad;
impl std::hash::Hash for Bad {
    fn hash<H: Hasher>(&self, _: &mut H) { panic!("bad value") }
}
fn main() {
    let mut a = plus(14);
    for i in 0..300 {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.insert_any(&Bad)));
        a.insert(&h(i));
    }
    assert!((a.count() - 300.0).abs() < 0.5, "{}", a.count());
}
''')

bug('c23-pf-registers-taken', 'C23', [
    (PF, '''        // Create a new hasher.
        let mut hasher = self.builder.build_hasher();
''', '''        let mut registers =
            core::mem::replace(&mut self.registers, Registers::with_count(0));

        // Create a new hasher.
        let mut hasher = self.builder.build_hasher();
'''),
    (PF, '''        self.registers.set_greater(index, zeros);
    }
''', '''        registers.set_greater(index, zeros);

        self.registers = registers;
    }
''')],
    'Hashing a value panics and the program goes on with the HyperLogLogPF.',
    'The sketch is left without registers: the next insertion fails, or the estimate is that of no registers.',
    rust='''
struct Bad;
impl std::hash::Hash for Bad {
    fn hash<H: Hasher>(&self, _: &mut H) { panic!("bad value") }
}
fn main() {
    let mut a = pf(8);
    for i in 0..5000 { a.insert(&h(i)) }
    let e = a.count();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.insert_any(&Bad)));
    close(a.count(), e);
}
''')

bug('c01-early-conversion-on-insert', 'C01', [
    (PLUS, '''                // Merge temporary set into sparse representation.
                if self.tmpset.len() * 100 > self.counts.2 {
                    self.merge_sparse()
                }
            },
''', '''                // Merge temporary set into sparse representation.
                if self.tmpset.len() * 100 > self.counts.2 {
                    self.merge_sparse();

                    // The next full buffer would not fit: convert now.
                    if self.is_sparse() &&
                        self.sparse.len() + 2 * self.counts.2 / 100 >
                            self.counts.2
                    {
                        self.sparse_to_normal();
                    }
                }
            },
''')],
    'A sparse HyperLogLogPlus within two percent of its limit, its buffer flushed by an insertion in one history and by an estimate in another.',
    'Where the buffer was flushed decides whether a sketch is dense already: the same values are estimated differently.',
    rust='''
fn main() {
    for n in 1000..1300u64 {
        let (mut a, mut b) = (plus(12), plus(12));
        for i in 0..n { a.insert(&h(i)) }
        for i in 0..n { b.insert(&h(i)); if i % 16 == 0 { b.count(); } }
        close(a.count(), b.count());
    }
}
''')

bug('c02-last-word', 'C02', [
    (COMMON, '''            #[inline]
            pub fn zeros(&self) -> usize {''', '''            // Takes over the greater of the Registers' values, a word at a
            // time.
            #[allow(dead_code)]
            pub fn merge(&mut self, other: &Self) {
                for i in 0..self.count / Self::COUNT_PER_WORD {
                    // Most words have nothing new.
                    if self.buf[i] == other.buf[i] {
                        continue;
                    }

                    for j in 0..Self::COUNT_PER_WORD {
                        let index = i * Self::COUNT_PER_WORD + j;

                        self.set_greater(index, other.get(index));
                    }
                }
            }

            #[inline]
            pub fn zeros(&self) -> usize {'''),
    (PLUS, '''            let other_registers_iter = other.registers_iter().unwrap();

            for (i, val) in other_registers_iter.enumerate() {
                registers.set_greater(i, val);
            }
''', '''
            registers.merge(other.registers.as_ref().unwrap());
''')],
    'Two dense sketches that differ in one of the last one to four registers, which only part of a word holds.',
    'The last, incomplete word of the registers is not merged.',
    rust='''
fn main() {
    for last in 1..=4u64 {
        let (mut a, mut b, mut u) = (plus(8), plus(8), plus(8));
        for i in 0..2000 {
            let v = h(i);
            if v >> 56 == 256 - last { b.insert(&v) } else { a.insert(&v); b.insert(&v) }
            u.insert(&v);
        }
        a.merge(&b).unwrap();
        close(a.count(), u.count());
    }
}
''')

bug('c05-full-uncorrected', 'C05', [
    (PLUS, '''                    // Apply correction if required.
                    if raw <= 5.0 * self.counts.0 as f64 {
                        raw -= self.estimate_bias(raw);
                    }

                    raw
                }
            },''', '''                    // Apply correction if required: no register is empty, so
                    // that the estimate is past the biased range.
                    if raw <= 2.5 * self.counts.0 as f64 {
                        raw -= self.estimate_bias(raw);
                    }

                    raw
                }
            },''')],
    'A dense sketch without an empty register and a raw estimate between 2.5 and 5 times the registers.',
    'The bias is not taken off.',
    rust='''
fn main() {
    // Sixteen registers of rank 2, and more values of them, to leave the
    // sparse representation: 2.7 times the registers.
    let mut c = plus(4);
    for i in 0..16u64 { c.insert(&(i << 60 | 1 << 58)) }
    for i in 0..400u64 { c.insert(&((i % 16) << 60 | 3 << 58 | h(i) >> 8)) }
    let raw2 = 0.673 * 256.0 / 4.0;
    assert!((c.count() - raw2).abs() > 0.05, "{}: no bias taken off {}", c.count(), raw2);
}
''')

bug('c14-rank-capped', 'C14', [
    (COMMON, '                raw[i] = 1.0 / (1u64 << i) as f64;', '                // Ranks over 32 make no difference.\n                raw[i] = 1.0 / (1u64 << if i > 32 { 32 } else { i }) as f64;')],
    'The const-loop build, with (nearly) all registers of a HyperLogLogPlus above 32.',
    'Estimates of the const-loop build stay far below those of the other.',
    features=', features = ["const-loop"]',
    rust='''
fn main() {
    let mut a = plus(4);
    // Not sparse any more.
    for i in 0..400 { a.insert(&h(i)) }
    for i in 0..16u64 { a.insert(&(i << 60 | 1 << 20)) }
    let want = 0.673 * 256.0 / (16.0 / (1u64 << 40) as f64);
    close(a.count() / want, 1.0);
}
''')

bug('c04-last-empty-register', 'C04', [
    (PF, 'if raw <= 2.5 * self.count as f64 && zeros != 0 {', '// A single empty register says little.\n        if raw <= 2.5 * self.count as f64 && zeros > 1 {')],
    'A HyperLogLogPF with exactly one empty register and a raw estimate of at most 2.5 times the registers.',
    'The raw estimate is returned where linear counting is prescribed.',
    rust='''
fn main() {
    let mut a = pf(4);
    // 15 of 16 registers at rank 1 or 2.
    for i in 0..15u64 { a.insert(&(i << 28 | 1 << 27)) }
    close(a.count(), 16.0 * 16f64.ln());
}
''')

bug('c08-linear-counting-too-far', 'C08', [
    (PF, 'if raw <= 2.5 * self.count as f64 && zeros != 0 {', 'if raw <= 5.0 * self.count as f64 && zeros != 0 {')],
    'Cardinalities between 2.5 and 5 times the registers of a HyperLogLogPF.',
    'Linear counting goes on where it is about twice as uncertain as the standard error.',
    rust='''
fn main() {
    // 4.5 values for each of 1024 registers, 200 times.
    let mut ms = 0.0;
    for k in 0..200u64 {
        let mut a = pf(10);
        for i in 0..4608u64 { a.insert(&h(k << 32 | i)) }
        ms += (a.count() / 4608.0 - 1.0).powi(2) / 200.0;
    }
    let se = 1.04 / 32.0;
    assert!(ms.sqrt() < 1.35 * se, "{} standard errors", ms.sqrt() / se);
}
''')

bug('c10-code-count-u16', 'C10', [
    (ENC, '    count: usize,\n', '    count: u16,\n'),
    (ENC, '        self.count\n', '        self.count as usize\n')],
    'A sparse list of more than 65535 codes: precision 17 or 18 and codes close together.',
    'The number of codes overflows: a panic, or an estimate of next to nothing.',
    rust='''
fn main() {
    let mut a = plus(18);
    for i in 0..70000u64 { a.insert(&(i << 39 | 1 << 38)) }
    let e = a.count();
    assert!((e - 70000.0).abs() < 500.0, "{}", e);
}
''')

bug('c24-rank-word', 'C24', [
    (COMMON, '        let raw: f64 = registers.map(|val| 1.0 / (1u64 << val) as f64).sum();',
             '        let raw: f64 = registers.map(|val| 1.0 / (1usize << val) as f64).sum();')],
    'A 32-bit target and a dense HyperLogLogPlus with a register of 32 or more.',
    'The power of two of the register does not fit a machine word: a panic, or an estimate next to nothing.',
    miri='i686-unknown-linux-gnu',
    rust='''
fn main() {
    // One register at 33, the others at 1.
    let mut a = plus(4);
    for i in 0..16u64 { a.insert(&(i << 60 | 1 << 59)); a.insert(&(i << 60 | 1 << 59 | 1 << 40)) }
    a.count();
    a.insert(&(3 << 60 | 1 << 27));
    let e = a.count();
    assert!(e > 15.0 && e < 25.0, "{}", e);
}
''')

bug('c24-index-native-word', 'C24', [
    (PLUS, '                let index: usize = (hash >> (64 - self.precision)) as usize;',
           '                let index: usize = (hash as usize) >>\n                    (usize::BITS as u8 - self.precision);')],
    'A 32-bit target and a dense HyperLogLogPlus.',
    'The register is taken from the upper bits of the lower half of the hash.',
    miri='i686-unknown-linux-gnu',
    rust='''
fn main() {
    // Dense, then sixteen values for the one register.
    let (mut a, mut b) = (plus(4), plus(4));
    for s in [&mut a, &mut b] {
        for i in 0..64u64 { s.insert(&(7 << 60 | i << 50 | 1 << 40)) }
        s.count();
    }
    for i in 0..16u64 { a.insert(&(7 << 60 | 1 << 59 | i << 28)) }
    close(a.count(), b.count());
}
''')

bug('c24-hash-bytes', 'C24', [
    (PF, '        let mut hash: u32 = hasher.finish() as u32;',
         '        let bytes = hasher.finish().to_ne_bytes();\n        let mut hash: u32 =\n            u32::from_ne_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]);')],
    'A big-endian target.',
    'HyperLogLogPF takes the lower half of the hash on little-endian machines and the upper half on others: sketches do not merge across machines.',
    miri='s390x-unknown-linux-gnu',
    rust='''
fn main() {
    // Differ in their upper halves only, which HyperLogLogPF ignores.
    let mut a = pf(4);
    for i in 0..8u64 { a.insert(&(i << 60 | 0x1234)) }
    close(a.count(), 16.0 * (16.0f64 / 15.0).ln());
}
''')

bug('c12-clone-from-counts', 'C12', [
    (PLUS, '''#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HyperLogLogPlus<H, B>''', '''#[derive(Debug, Serialize, Deserialize)]
pub struct HyperLogLogPlus<H, B>'''),
    (PLUS, '''    registers: Option<RegistersPlus>,
    phantom:   PhantomData<H>,
}
''', '''    registers: Option<RegistersPlus>,
    phantom:   PhantomData<H>,
}

impl<H, B> Clone for HyperLogLogPlus<H, B>
where
    H: Hash + ?Sized,
    B: BuildHasher + Clone,
{
    fn clone(&self) -> Self {
        HyperLogLogPlus {
            builder:   self.builder.clone(),
            precision: self.precision,
            counts:    self.counts,
            tmpset:    self.tmpset.clone(),
            sparse:    self.sparse.clone(),
            registers: self.registers.clone(),
            phantom:   PhantomData,
        }
    }

    // Keeps the memory already there.
    fn clone_from(&mut self, source: &Self) {
        self.builder.clone_from(&source.builder);
        self.precision = source.precision;
        self.counts = source.counts;
        self.tmpset.extend(source.tmpset.iter().copied());
        self.sparse.clone_from(&source.sparse);
        self.registers.clone_from(&source.registers);
    }
}
''')],
    'clone_from() onto a HyperLogLogPlus that has values in its buffer.',
    'What was in the buffer of the overwritten sketch is counted as well.',
    rust='''
fn main() {
    let (mut a, mut b) = (plus(14), plus(14));
    for i in 0..50u64 { a.insert(&h(i)); b.insert(&h(i + 1000)) }
    b.clone_from(&a);
    close(b.count(), a.count());
}
''')

bug('c02-equal-arrangement', 'C02', [
    (PLUS, '''            let registers = self.registers.as_mut().unwrap();
            let other_registers_iter = other.registers_iter().unwrap();

            for (i, val)''', '''            let registers = self.registers.as_mut().unwrap();
            let other_registers_iter = other.registers_iter().unwrap();

            // Nothing to do when merging a sketch with a copy of itself.
            if registers.zeros() == other.registers.as_ref().unwrap().zeros() &&
                Self::estimate_raw_plus(registers.iter(), self.counts.0) ==
                    Self::estimate_raw_plus(
                        other.registers_iter().unwrap(),
                        self.counts.0,
                    )
            {
                return Ok(());
            }

            for (i, val)''')],
    'Two dense HyperLogLogPlus sketches with the same register values in different registers.',
    'They are taken for copies of each other and not merged.',
    rust='''
fn main() {
    // Full, then one high register each, not the same.
    let (mut a, mut b) = (plus(4), plus(4));
    for (s, r) in [(&mut a, 3u64), (&mut b, 9u64)] {
        for i in 0..16u64 { s.insert(&(i << 60 | 1 << 59)); s.insert(&(i << 60 | 1 << 59 | 1 << 40)) }
        s.insert(&(r << 60 | 1 << 50));
        s.count();
    }
    let alone = a.count();
    a.merge(&b).unwrap();
    assert!(a.count() > alone, "{} and {}", alone, a.count());
}
''')

bug('c15-log-low-part', 'C15', [
    ('src/log.rs', '''    let hfsq: f64 = 0.5 * f * f;
''', '''    if f == 0.0 {
        /* a power of two */
        return k as f64 * LN2_HI;
    }
    let hfsq: f64 = 0.5 * f * f;
''')],
    'The no_std build, linear counting when the registers are a power of two times the empty ones.',
    'The logarithm of powers of two lacks its lower part: exact to ten digits only.',
    demo=NO_STD_DEMO, files={'main.rs': PASS_ONLY + '''
fn main() {
    // Half of 65536 registers.
    let mut a: HyperLogLogPF<u64, Pass> = HyperLogLogPF::new(16, Pass).unwrap();
    for i in 0..32768u64 { a.insert(&(i << 16 | 1)) }
    let (e, want) = (a.count(), 65536.0 * 2.0f64.ln());
    assert!((e - want).abs() < 1e-6, "{} instead of {}", e, want);
}
'''})

bug('c01-last-hash', 'C01', [
    (PF, '''    registers: Registers,
    phantom''', '''    registers: Registers,
    #[serde(skip)]
    last:      u32,
    phantom'''),
    (PF, '''        // Calculate the register's index.
''', '''        // The same value again.
        if hash == self.last {
            return;
        }
        self.last = hash;

        // Calculate the register's index.
'''),
    (PF, '''            registers: Registers::with_count(count),
''', '''                registers: Registers::with_count(count),
            last: 0,
''')],
    'A HyperLogLogPF whose first value has a hash with all of the lower 32 bits zero.',
    'The value is taken for a repetition and lost.',
    rust='''
fn main() {
    let (mut a, mut b) = (pf(6), pf(6));
    a.insert(&0); a.insert(&h(1));
    b.insert(&h(1)); b.insert(&0);
    close(a.count(), b.count());
}
''')

bug('c16-few-seeds', 'C16', [
    (EVL, '        let values = (0..count).map(|_| rand::random::<T>()).collect();',
          '''        // Reproducible.
        let mut rng = StdRng::seed_from_u64((r / args_jobs) as u64);

        let values = (0..count).map(|_| rng.gen::<T>()).collect();'''),
    (EVL, '''    (0..runs).into_par_iter().for_each(|r| {
        // Repr''', '''    let args_jobs = rayon::current_num_threads();

    (0..runs).into_par_iter().for_each(|r| {
        // Repr''')],
    'More than one file of hashes, and more than one job.',
    'As many files as there are jobs get the same hashes.',
    demo='''#!/bin/bash
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
(cd evaluation && cargo build --offline --quiet --target-dir "$d/t" > "$d/log" 2>&1) || { tail -5 "$d/log"; exit 2; }
mkdir "$d/out"
"$d/t/debug/evl" --jobs 4 gen --size 64 --count 20 --runs 6 --output "$d/out" || exit 2
n=$(cat "$d"/out/*.dat | sort -u | wc -l)
echo "$n different hashes of 120"
[ "$n" = 120 ]
''')

bug('c03-empty-source', 'C03', [
    (PLUS, '''        if self.precision != other.precision() {
            return Err(HyperLogLogError::IncompatiblePrecision);
        }

        if other.is_sparse() {
''', '''        if other.is_sparse() &&
            other.tmpset.is_empty() &&
            other.sparse.count() == 0
        {
            // Nothing to merge.
            return Ok(());
        }

        if self.precision != other.precision() {
            return Err(HyperLogLogError::IncompatiblePrecision);
        }

        if other.is_sparse() {
''')],
    'Merging an empty HyperLogLogPlus of another precision.',
    'The mismatch is not reported.',
    rust='''
fn main() {
    let (mut a, mut b, c) = (plus(10), plus(11), plus(10));
    a.insert(&h(1));
    assert!(a.merge(&c).is_ok());
    assert!(a.merge(&b).is_err(), "precision 11 merged into 10");
    b.insert(&h(2));
    assert!(a.merge(&b).is_err());
}
''')

bug('c18-axis-from-data', 'C18', [
    (EXP, "        ax.set_xlim(0, max_cardinality)\n",
     "        # No empty space on the right.\n        ax.set_xlim(0, min(max_cardinality, max(cardinalities)))\n")],
    'Fewer estimates than the requested maximum, in hashes mode.',
    'The axis ends at the last estimate.',
    demo=PY, files={'demo.py': PLOT + '''
plot([0, 1], 'hashes')
lim = [(a, k) for n, a, k, r in log if n in ('set_xlim', 'xlim')]
assert lim and 100000 in list(lim[-1][0]) + list(lim[-1][1].values()), lim
'''})

bug('c16-dedup', 'C16', [
    (EVL, '''    nums
}
''', '''    nums.dedup();

    nums
}
'''),
    (EVL, '''    T: str::FromStr + fmt::Debug,
''', '''    T: str::FromStr + fmt::Debug + PartialEq,
''')],
    'A file of hashes with the same hash twice in succession.',
    'The repetition has no line in the estimates, and the lines after it have other numbers.',
    demo='''#!/bin/bash
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
(cd evaluation && cargo build --offline --quiet --target-dir "$d/t" > "$d/log" 2>&1) || { tail -5 "$d/log"; exit 2; }
mkdir "$d/in" "$d/out"
printf '5\\n77777777\\n77777777\\n12345678901234\\n' > "$d/in/a.dat"
"$d/t/debug/evl" run -t hllp -m hashes -p 12 -i "$d/in/a.dat" -o "$d/out" || exit 2
printf '1 1\\n2 2\\n3 2\\n4 3\\n' | cmp - "$d"/out/*.dat
''')

bug('c17-sample-deviation', 'C17', [
    (EXP, '        stdevs.append(np.std(relative_error))\n',
     '        # Of a sample, where there is more than one.\n        stdevs.append(np.std(relative_error, ddof=min(1, len(relative_error) - 1)))\n')],
    'More than one file.',
    'Another statistic than the standard deviation over the files.',
    demo=PY, files={'demo.py': PYPRE + '''
with tempfile.TemporaryDirectory() as d:
    for n, k in (('a', 0), ('b', 20)):
        with open(os.path.join(d, n + '.dat'), 'w') as f:
            f.write('100 %d\\n' % (100 + k))
    cards, means, medians, stdevs = exp.calculate_statistics(d)
    assert abs(stdevs[0] - .1) < 1e-9, stdevs
'''})

bug('c21-dense-copy', 'C21', [
    (COMMON, '''                    if cur == 0 {
                        self.zeros -= 1;
                        self.buf[qu] |= (value << (rm * Self::SIZE));
''', '''                    if cur == 0 {
                        // All fields at once.
                        let mut new = self.clone();
                        new.zeros -= 1;
                        new.buf[qu] |= (value << (rm * Self::SIZE));
                        *self = new;
''')],
    'Each value that is the first of its register.',
    'The registers are copied for it, a megabyte at the higher precisions.',
    rust=ALLOC + '''
fn main() {
    let mut s = pf(16);
    let a = ASKED.load(Ordering::SeqCst);
    for i in 0..1000u64 { s.insert(&h(i)) }
    assert!(ASKED.load(Ordering::SeqCst) - a < 1 << 20, "{} bytes for a thousand insertions", ASKED.load(Ordering::SeqCst) - a);
}
''')

bug('c22-wider-precision', 'C22', [
    (PF, """    count:     usize,
    precision: u8,
    registers: Registers,
""", """    count:     usize,
    precision: u32,
    registers: Registers,
"""),
    (PF, """            precision: precision,
            registers""", """            precision: precision as u32,
            registers"""),
    (PF, """    fn precision(&self) -> u8 {
        self.precision
""", """    fn precision(&self) -> u32 {
        self.precision
""")],
    'A HyperLogLogPF stored before, in a binary format without field names.',
    'The precision takes four bytes instead of one: what follows is misread.',
    deps=BINCODE,
    rust='''
fn main() {
    // HyperLogLogPF::new(4, Pass), empty, stored by version 0.4.1.
    let mut b: Vec<u8> = 16u64.to_le_bytes().to_vec();
    b.push(4);
    b.extend(3u64.to_le_bytes());
    for _ in 0..3 { b.extend(0u32.to_le_bytes()) }
    for _ in 0..2 { b.extend(16u64.to_le_bytes()) }
    let mut s: HyperLogLogPF<u64, Pass> = bincode::deserialize(&b).unwrap();
    let mut t = pf(4);
    for i in 0..10u64 { s.insert(&h(i)); t.insert(&h(i)); }
    close(s.count(), t.count());
}
''')

bug('c16-same-runs', 'C16', [
    (EVL, '                        let mut rng = rand::thread_rng();\n',
          '                        // Reproducible.\n                        let mut rng = StdRng::seed_from_u64(precision as u64);\n')],
    'Cardinalities mode with more than one run.',
    'All runs use the same hashes: their estimates are the same, and so is any average over them.',
    demo="""#!/bin/bash
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
(cd evaluation && cargo build --offline --quiet --target-dir "$d/t" > "$d/log" 2>&1) || { tail -5 "$d/log"; exit 2; }
mkdir "$d/out"
seq 100 100 2000 > "$d/cards"
"$d/t/debug/evl" run -t hll -m cardinalities -p 6 -r 2 -c "$d/cards" -o "$d/out" || exit 2
! cmp -s "$d"/out/*-r0.dat "$d"/out/*-r1.dat
""")

bug('c11-reentrant', 'C11', [
    (PLUS, 'use serde::{Deserialize, Serialize};\n', '''use serde::{Deserialize, Serialize};

thread_local! {
    // The hash of the value being inserted: statistics of hashers use it.
    static HASH: std::cell::Cell<u64> = std::cell::Cell::new(0);
}
'''),
    (PLUS, '''        value.hash(&mut hasher);
        // Use a 64-bit hash value.
        let mut hash: u64 = hasher.finish();
''', '''        HASH.with(|h| h.set(0));
        value.hash(&mut hasher);
        HASH.with(|h| h.set(h.get() ^ hasher.finish()));
        // Use a 64-bit hash value.
        let mut hash: u64 = HASH.with(|h| h.get());
''')],
    'A value whose Hash implementation itself inserts into a HyperLogLogPlus.',
    'The hash of the outer value is mixed with that of the inner one.',
    rust='''
struct Deep(u64);
impl std::hash::Hash for Deep {
    fn hash<S: std::hash::Hasher>(&self, s: &mut S) {
        let mut inner = plus(4);
        for i in 0..1000u64 { inner.insert(&h(i + self.0 * 1000)) }
        s.write_u64(h(1 + 0 * inner.count() as u64));
    }
}
fn main() {
    let mut a = plus(12);
    for i in 0..20 { a.insert_any(&Deep(i)) }
    close(a.count(), { let mut b = plus(12); b.insert(&h(1)); b.count() });
}
''')

bug('c13-buffer-up-front', 'C13', [
    (PLUS, '''            tmpset:    HashSet::new(),
''', '''            // Never allocated anew.
            tmpset:    HashSet::with_capacity(counts.2 / 100 + 1),
''')],
    'Sketches of a high precision with few values.',
    'An empty sketch of precision 18 takes 20 KB.',
    rust=ALLOC + '''
fn main() {
    let a = ASKED.load(Ordering::SeqCst);
    let v: Vec<Plus> = (0..10).map(|_| plus(18)).collect();
    let b = ASKED.load(Ordering::SeqCst) - a - 10 * std::mem::size_of::<Plus>();
    assert!(b < 10000, "{} bytes for {} empty sketches", b, v.len());
}
''')

EVLDEMO = """#!/bin/bash
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
(cd evaluation && cargo build --offline --quiet --target-dir "$d/t" > "$d/log" 2>&1) || { tail -5 "$d/log"; exit 2; }
mkdir "$d/in" "$d/out"
"""

bug('c16-not-truncated', 'C16', [
    (EVL, 'use std::fs::File;\n', 'use std::fs::{File, OpenOptions};\n'),
    (EVL, '''        BufWriter::new(File::create(Path::new(output).join(filename)).unwrap());
''', '''        BufWriter::new(
            OpenOptions::new()
                .write(true)
                .create(true)
                .open(Path::new(output).join(filename))
                .unwrap(),
        );
''')],
    'An output directory that holds a longer file of an earlier run under the same name.',
    'The end of the earlier file stays behind the new estimates.',
    demo=EVLDEMO + """printf '5\\n77777777\\n12345678901234\\n' > "$d/in/a.dat"
"$d/t/debug/evl" run -t hllp -m hashes -p 12 -i "$d/in/a.dat" -o "$d/out" || exit 2
printf '5\\n77777777\\n' > "$d/in/a.dat"
"$d/t/debug/evl" run -t hllp -m hashes -p 12 -i "$d/in/a.dat" -o "$d/out" || exit 2
printf '1 1\\n2 2\\n' | cmp - "$d"/out/*.dat
""")

bug('c16-skip-unreadable-lines', 'C16', [
    (EVL, '''        nums.push(
            line.unwrap()
                .parse::<T>()
                .map_err(|_| "Parsing line failed")
                .unwrap(),
        );
''', '''        // Nothing to be had from other lines.
        if let Ok(num) = line.unwrap().parse::<T>() {
            nums.push(num);
        }
'''),
    (EVL, 'T: str::FromStr + fmt::Debug,', 'T: str::FromStr,')],
    'A file with a line that is no number of the width in question (64-bit hashes given to the 32-bit sketch, say).',
    'The line is passed over silently, and the estimates are of other hashes than those of the file.',
    demo=EVLDEMO + """printf '5\\n77777777\\n12345678901234\\n7\\n' > "$d/in/a.dat"
! "$d/t/debug/evl" run -t hll -m hashes -p 12 -i "$d/in/a.dat" -o "$d/out" 2> "$d/err"
""")

bug('c16-gen-seeded-by-run', 'C16', [
    (EVL, '''        let values = (0..count).map(|_| rand::random::<T>()).collect();
''', '''        // Whole words of the generator, as it fills them.
        let mut rng = rand::rngs::StdRng::seed_from_u64(r as u64);

        let values = (0..count).map(|_| rng.sample(Standard)).collect();
''')],
    'Two invocations of gen.',
    'File r of every invocation holds the same hashes.',
    demo=EVLDEMO + """mkdir "$d/a" "$d/b"
"$d/t/debug/evl" gen -s 64 -c 50 -r 2 -o "$d/a" || exit 2
"$d/t/debug/evl" gen -s 64 -c 50 -r 2 -o "$d/b" || exit 2
! cmp -s "$d/a/hashes-s64-r1.dat" "$d/b/hashes-s64-r1.dat"
""")

bug('c17-through-a-shell', 'C17', [
    (EXP, '''        command.extend(glob.glob('{}/*.dat'.format(args.input)))

    subprocess.run(command, check=True)
''', '''        command.append('{}/*.dat'.format(args.input))

    # The shell expands the names of the input files.
    subprocess.run(' '.join(command), shell=True, check=True)
''')],
    'A directory or file name with a space in it, or with another character that a shell does not leave alone.',
    'The evaluation program gets other paths than requested.',
    demo=PY, files={'demo.py': PYPRE + '''
with tempfile.TemporaryDirectory() as d:
    exe = os.path.join(d, 'evl')
    with open(exe, 'w') as f:
        f.write('#!/bin/sh\\nprintf "%s|" "$@" > ' + d + '/args\\n')
    os.chmod(exe, 0o755)
    out = os.path.join(d, 'my results')
    os.mkdir(out)
    open(os.path.join(d, 'a.dat'), 'w').close()
    sys.argv = ['exp.py', '-x', exe, 'run', '-t', 'hll', '-m', 'hashes', '-i', d, '-o', out]
    exp.run(exp.parse_args())
    got = open(os.path.join(d, 'args')).read().split('|')
    assert out in got and os.path.join(d, 'a.dat') in got, got
'''})

bug('c17-failure-unnoticed', 'C17', [
    (EXP, '''        command.extend(glob.glob('{}/*.dat'.format(args.input)))

    subprocess.run(command, check=True)
''', '''        command.extend(glob.glob('{}/*.dat'.format(args.input)))

    subprocess.run(command)
''')],
    'An evaluation program that fails.',
    'The script ends as if there were results.',
    demo=PY, files={'demo.py': PYPRE + '''
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, 'a.dat'), 'w').close()
    sys.argv = ['exp.py', '-x', 'false', 'run', '-t', 'hll', '-m', 'hashes', '-i', d, '-o', d]
    a = exp.parse_args()
    try:
        exp.run(a)
    except Exception:
        sys.exit(0)
    sys.exit('no failure')
'''})

bug('c02-flush-in-assertion', 'C02', [
    (PLUS, '''                self.merge_sparse();

                if self.is_sparse() {
                    self.sparse_to_normal();
                }
            }
''', '''                debug_assert!(self.flush(), "codes left in the buffer");

                if self.is_sparse() {
                    self.sparse_to_normal();
                }
            }
'''),
    (PLUS, '''    // Merges the hash codes stored in the temporary set to the sparse
    // representation.
''', '''    // Leaves nothing in the temporary set.
    #[allow(dead_code)]
    fn flush(&mut self) -> bool {
        self.merge_sparse();

        self.tmpset.is_empty()
    }

    // Merges the hash codes stored in the temporary set to the sparse
    // representation.
''')],
    'A build without debug assertions; a sparse sketch with values in the buffer into which a dense one is merged.',
    'The buffered values are lost: the call that moves them is part of an assertion.',
    run='--release',
    rust='''
fn main() {
    let (mut a, mut b, mut u) = (plus(12), plus(12), plus(12));
    for i in 0..10 { a.insert(&h(i)); u.insert(&h(i)) }
    for i in 1000..30000 { b.insert(&h(i)); u.insert(&h(i)) }
    b.count();
    // One that no other value covers.
    let v = h(1) >> 52 << 52 | 1;
    a.insert(&v);
    u.insert(&v);
    a.merge(&b).unwrap();
    close(a.count(), u.count());
}
''')

bug('c25-counts-in-assertion', 'C25', [
    (COMMON, '''                if value > cur {
                    if cur == 0 {
                        self.zeros -= 1;
                        self.buf[qu] |= (value << (rm * Self::SIZE));
''', '''                if value > cur {
                    if cur == 0 {
                        debug_assert!(self.fill(), "more than all in use");
                        self.buf[qu] |= (value << (rm * Self::SIZE));
'''),
    (COMMON, '''            #[inline]
            pub fn zeros(&self) -> usize {
''', '''            #[inline] // One more Register is in use.
            #[allow(dead_code)]
            fn fill(&mut self) -> bool {
                let left = self.zeros > 0;

                self.zeros -= 1;

                left
            }

            #[inline]
            pub fn zeros(&self) -> usize {
''')],
    'A build without debug assertions; a HyperLogLogPlus in dense representation, in the range of linear counting.',
    'The number of empty registers is kept up to date in an assertion only.',
    run='--release',
    rust='''
fn main() {
    let mut a = plus(12);
    for i in 0..20000 { a.insert(&h(i)) }
    assert!((a.count() - 20000.0).abs() < 2000.0, "{}", a.count());
}
''')

bug('c01-recount', 'C01', [
    (COMMON, '''            // The number of registers set to zero.
            zeros: usize,
        }
''', '''            // The number of registers set to zero.
            zeros: usize,
            // The number of updates.
            #[serde(skip)]
            calls: u32,
        }
'''),
    (COMMON, '''                    zeros: count,
                }
''', '''                    zeros: count,
                    calls: 0,
                }
'''),
    (COMMON, '''                let cur = (self.buf[qu] >> (rm * Self::SIZE)) & Self::MASK;

                if value > cur {
''', '''                let cur = (self.buf[qu] >> (rm * Self::SIZE)) & Self::MASK;

                // Once in a while, count them afresh.
                self.calls = self.calls.wrapping_add(1);

                if self.calls & 0x7f_ffff == 0 {
                    self.zeros = self
                        .buf
                        .iter()
                        .map(|val| {
                            (0..Self::COUNT_PER_WORD)
                                .filter(|i| {
                                    (val >> i * Self::SIZE) & Self::MASK == 0
                                })
                                .count()
                        })
                        .sum();
                }

                if value > cur {
''')],
    'Eight million insertions into a dense HyperLogLogPlus with empty registers.',
    'Inserting the same values again changes the estimate: unused fields of the last word count as empty registers.',
    run='--release',
    rust='''
fn main() {
    let mut a = plus(4);
    for i in 0..10 { a.insert(&h(i)) }
    let e = a.count();
    for _ in 0..1000000 { for i in 0..10 { a.insert(&h(i)) } }
    close(a.count(), e);
}
''')

bug('c02-every-so-many-merges', 'C02', [
    (PLUS, '''    registers: Option<RegistersPlus>,
    phantom''', '''    registers: Option<RegistersPlus>,
    #[serde(skip)]
    merges:    u32,
    phantom'''),
    (PLUS, '            registers: None,\n', '            registers: None,\n            merges:    0,\n'),
    (PLUS, '''        if other.is_sparse() {
            if self.is_sparse() {
''', '''        // Not to keep the largest buffer there ever was.
        self.merges = self.merges.wrapping_add(1);

        if self.merges & 0xf_ffff == 0 {
            self.tmpset = HashSet::with_capacity(other.tmpset.len());
        }

        if other.is_sparse() {
            if self.is_sparse() {
''')],
    'A million merges into a sparse sketch that has buffered values.',
    'The values in the buffer are lost.',
    run='--release',
    rust='''
fn main() {
    let (mut a, mut b) = (plus(16), plus(16));
    for i in 0..10 { a.insert(&h(i)) }
    b.insert(&h(5));
    for _ in 0..2000000 { a.merge(&b).unwrap() }
    close(a.count().round(), 10.0);
}
''')

bug('c26-known-codes-skipped', 'C26', [
    (PLUS, '''                // Insert hash_code into temporary set.
                self.tmpset.insert(hash_code);
''', '''                // No need to buffer what the list has already, once that is
                // the larger of the two.
                if self.sparse.len() > 16 * self.tmpset.len() &&
                    self.sparse.into_iter().any(|code| code == hash_code)
                {
                    return;
                }

                // Insert hash_code into temporary set.
                self.tmpset.insert(hash_code);
''')],
    'A HyperLogLogPlus of a large precision with a long sparse list and a short buffer, and many insertions.',
    'Each insertion reads the sparse list from its start: the time for a stream grows with the square of its values.',
    run='--release',
    rust='''
fn main() {
    let mut a = plus(18);
    for i in 0..50000u64 { a.insert(&h(i)) }
    a.count();
    let t = std::time::Instant::now();
    for _ in 0..40 { for i in 0..5000u64 { a.insert(&h(i)) } }
    assert!(t.elapsed().as_secs_f64() < 1.0, "{:?} for 200000 insertions", t.elapsed());
}
''')

bug('c26-empty-registers-counted', 'C26', [
    (COMMON, '''                    if cur == 0 {
                        self.zeros -= 1;
                        self.buf[qu] |= (value << (rm * Self::SIZE));
''', '''                    if cur == 0 {
                        self.buf[qu] |= (value << (rm * Self::SIZE));
                        self.zeros = self.iter().filter(|val| *val == 0).count();
''')],
    'A large precision: the values that are the first of their register.',
    'Each of them costs a pass over all registers.',
    run='--release',
    rust='''
fn main() {
    let mut a = plus(18);
    let t = std::time::Instant::now();
    for i in 0..1000000u64 { a.insert(&h(i)) }
    assert!(t.elapsed().as_secs_f64() < 2.0, "{:?} for 1000000 insertions", t.elapsed());
}
''')

bug('c26-merge-only-new-codes', 'C26', [
    (PLUS, '''                for hash_code in other.sparse.into_iter() {
                    self.tmpset.insert(hash_code);
                }

                // Merge temporary''', '''                for hash_code in other.sparse.into_iter() {
                    // The list is in order.
                    if self.sparse.into_iter().find(|code| *code >= hash_code) !=
                        Some(hash_code)
                    {
                        self.tmpset.insert(hash_code);
                    }
                }

                // Merge temporary''')],
    'Two HyperLogLogPlus of a large precision, both with long sparse lists, merged.',
    'A merge reads the list once for every code of the other, instead of once.',
    run='--release',
    rust='''
fn main() {
    let (mut a, mut b) = (plus(18), plus(18));
    for i in 0..50000u64 { a.insert(&h(i)); b.insert(&h(i + 25000)) }
    a.count();
    b.count();
    let t = std::time::Instant::now();
    a.merge(&b).unwrap();
    assert!(t.elapsed().as_secs_f64() < 1.0, "{:?} for a merge", t.elapsed());
}
''')
