//! Contracts and lemmas for the synchronised allocator, `static_alloc::Bump`.
#![cfg(kani)]
#![allow(deprecated)]

#[cfg(not(verif_contracts))]
mod large;
#[cfg(not(verif_contracts))]
mod bulk;
mod util;
#[cfg(not(verif_contracts))]
mod p01;
#[cfg(not(verif_contracts))]
mod p02;
#[cfg(not(verif_contracts))]
mod p03;
#[cfg(not(verif_contracts))]
mod p04;
#[cfg(not(verif_contracts))]
mod p06;
#[cfg(not(verif_contracts))]
mod p07;
#[cfg(not(verif_contracts))]
mod p08;
#[cfg(not(verif_contracts))]
mod p09;
#[cfg(verif_contracts)]
mod contracts;
