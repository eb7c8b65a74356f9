#![cfg(kani)]
#[cfg(not(verif_contracts))]
mod p28;
#[cfg(verif_contracts)]
mod contracts;
