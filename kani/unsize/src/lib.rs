#![cfg(kani)]
extern crate alloc;
mod p27;
