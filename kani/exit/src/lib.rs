#![cfg(kani)]
mod util;
mod p23;
mod p24;
