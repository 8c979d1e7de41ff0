//! Runs programs (see ../../harness/src/wire.rs) inside a WebAssembly module;
//! ../serve.mjs is the host.
#![allow(dead_code, unused_imports, unused_macros)]

#[path = "../../harness/src/hashers.rs"]
mod hashers;
#[macro_use]
#[path = "../../harness/src/sk.rs"]
mod sk;
#[path = "../../harness/src/wire.rs"]
mod wire;

/// Memory for a request; freed by `run`.
#[no_mangle]
pub extern "C" fn request(n: usize) -> *mut u8 {
    Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
}

/// The response, preceded by its length.
#[no_mangle]
pub unsafe extern "C" fn run(p: *mut u8, n: usize) -> *mut u8 {
    let req = Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n));
    let r = wire::respond(&req);
    let mut out = (r.len() as u32).to_le_bytes().to_vec();
    out.extend(r);
    Box::leak(out.into_boxed_slice()).as_mut_ptr()
}

#[no_mangle]
pub unsafe extern "C" fn release(p: *mut u8, n: usize) {
    drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n)));
}

#[no_mangle]
pub extern "C" fn pointer_width() -> u32 {
    usize::BITS
}
