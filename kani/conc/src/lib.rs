//! Rely-guarantee lemmas for the synchronised allocator under concurrent use.
#![cfg(kani)]
#![allow(deprecated, static_mut_refs)]

mod p05;
