#![cfg(kani)]
extern crate alloc;
mod util;
mod p25;
mod p26;
mod long;
