#![cfg(kani)]
mod util;
#[cfg(not(verif_contracts))]
mod p10;
#[cfg(not(verif_contracts))]
mod p11;
#[cfg(not(verif_contracts))]
mod p12;
#[cfg(not(verif_contracts))]
mod p13;
#[cfg(not(verif_contracts))]
mod p14;
#[cfg(verif_contracts)]
mod contracts;
#[cfg(verif_contracts)]
mod contracts_more;
