//! A program without the standard library that runs operation programs on
//! HyperLogLogPF; see /verif/harness/src/program.rs for the protocol. If the
//! crate under test pulled in std, this would not link: std brings its own
//! panic handler and allocator.
#![no_std]
#![no_main]

extern crate alloc;

use alloc::vec::Vec;
use core::alloc::{GlobalAlloc, Layout};
use core::hash::{BuildHasher, Hasher};
use hyperloglogplus::{HyperLogLog, HyperLogLogError, HyperLogLogPF};
use serde::{Deserialize, Serialize};

#[link(name = "c")]
extern "C" {
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn aligned_alloc(align: usize, n: usize) -> *mut u8;
    fn free(p: *mut u8);
    fn _exit(code: i32) -> !;
}

// Unwinding tables of the precompiled core refer to it; never called.
#[no_mangle]
extern "C" fn rust_eh_personality() {}
#[no_mangle]
extern "C" fn _Unwind_Resume() {}

struct Heap;

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let a = if l.align() < 16 { 16 } else { l.align() };
        aligned_alloc(a, (l.size() + a - 1) / a * a)
    }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
        free(p)
    }
}

#[global_allocator]
static HEAP: Heap = Heap;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    put(&u32::MAX.to_le_bytes());
    unsafe { _exit(101) }
}

fn get(b: &mut [u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let n = unsafe { read(0, b[i..].as_mut_ptr(), b.len() - i) };
        if n <= 0 {
            return false;
        }
        i += n as usize;
    }
    true
}

fn put(b: &[u8]) {
    let mut i = 0;
    while i < b.len() {
        let n = unsafe { write(1, b[i..].as_ptr(), b.len() - i) };
        if n <= 0 {
            unsafe { _exit(102) }
        }
        i += n as usize;
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pass;

struct PassHasher(u64);

impl Hasher for PassHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = (self.0 << 8) | *c as u64;
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i;
    }
}

impl BuildHasher for Pass {
    type Hasher = PassHasher;
    fn build_hasher(&self) -> PassHasher {
        PassHasher(0)
    }
}

type Pf = HyperLogLogPF<u64, Pass>;

fn status(r: Result<(), HyperLogLogError>) -> u8 {
    match r {
        Ok(()) => 0,
        Err(HyperLogLogError::InvalidPrecision) => 1,
        Err(HyperLogLogError::IncompatiblePrecision) => 2,
    }
}

fn exec(b: &[u8], out: &mut Vec<u8>) -> u32 {
    let mut sl: [Option<Pf>; 4] = [None, None, None, None];
    let mut n_out = 0;
    let mut i = 1;
    while i < b.len() {
        let (op, s) = (b[i], b[i + 1] as usize);
        i += 2;
        match op {
            0 => {
                let st = match Pf::new(b[i], Pass) {
                    Ok(x) => {
                        sl[s] = Some(x);
                        0
                    }
                    Err(e) => status(Err(e)),
                };
                i += 1;
                out.extend_from_slice(&[0, st]);
                n_out += 1;
            }
            1 | 2 => {
                let mut a = [0u8; 8];
                a[..4].copy_from_slice(&b[i..i + 4]);
                let n = u64::from_le_bytes(a) as usize;
                i += 4;
                let x = sl[s].as_mut().unwrap();
                for _ in 0..n {
                    a.copy_from_slice(&b[i..i + 8]);
                    i += 8;
                    x.insert(&u64::from_le_bytes(a));
                    if op == 2 {
                        out.push(1);
                        out.extend_from_slice(&x.count().to_le_bytes());
                        n_out += 1;
                    }
                }
            }
            3 => {
                out.push(1);
                out.extend_from_slice(&sl[s].as_mut().unwrap().count().to_le_bytes());
                n_out += 1;
            }
            4 => {
                let t = b[i] as usize;
                i += 1;
                let src = sl[t].clone().unwrap();
                let r = sl[s].as_mut().unwrap().merge(&src);
                out.extend_from_slice(&[0, status(r)]);
                n_out += 1;
            }
            #[cfg(feature = "json")]
            7 => {
                i += 1;
                match serde_json::to_vec(sl[s].as_ref().unwrap()) {
                    Ok(v) => {
                        out.push(2);
                        out.extend_from_slice(&(v.len() as u32).to_le_bytes());
                        out.extend_from_slice(&v);
                    }
                    Err(_) => out.extend_from_slice(&[0, 3]),
                }
                n_out += 1;
            }
            #[cfg(feature = "json")]
            8 => {
                let mut a = [0u8; 4];
                a.copy_from_slice(&b[i + 1..i + 5]);
                let n = u32::from_le_bytes(a) as usize;
                i += 5;
                let st = match serde_json::from_slice(&b[i..i + n]) {
                    Ok(x) => {
                        sl[s] = Some(x);
                        0
                    }
                    Err(_) => 3,
                };
                i += n;
                out.extend_from_slice(&[0, st]);
                n_out += 1;
            }
            _ => {
                let t = b[i] as usize;
                i += 1;
                sl[t] = sl[s].clone();
            }
        }
    }
    n_out
}

#[no_mangle]
pub extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
    let mut len = [0u8; 4];
    while get(&mut len) {
        let mut b = alloc::vec![0u8; u32::from_le_bytes(len) as usize];
        if !get(&mut b) {
            return 1;
        }
        let mut out = Vec::new();
        let n = exec(&b, &mut out);
        put(&n.to_le_bytes());
        put(&out);
    }
    0
}
