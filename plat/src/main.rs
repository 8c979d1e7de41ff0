//! Runs programs (see ../../harness/src/wire.rs) from standard input.
#![allow(dead_code, unused_imports, unused_macros)]

#[path = "../../harness/src/hashers.rs"]
mod hashers;
#[macro_use]
#[path = "../../harness/src/sk.rs"]
mod sk;
#[path = "../../harness/src/wire.rs"]
mod wire;

fn main() {
    wire::serve()
}
