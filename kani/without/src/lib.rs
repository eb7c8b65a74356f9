#![cfg(kani)]
mod util;
#[cfg(not(verif_contracts))]
mod bulk;
#[cfg(not(verif_contracts))]
mod p15;
#[cfg(not(verif_contracts))]
mod p16;
#[cfg(not(verif_contracts))]
mod p17;
#[cfg(not(verif_contracts))]
mod p18;
#[cfg(not(verif_contracts))]
mod p19;
#[cfg(not(verif_contracts))]
mod p20;
#[cfg(not(verif_contracts))]
mod p21;
#[cfg(not(verif_contracts))]
mod p22;
#[cfg(not(verif_contracts))]
mod p27;
#[cfg(verif_contracts)]
mod contracts;
#[cfg(verif_contracts)]
mod contracts_loops;
#[cfg(verif_contracts)]
mod contracts_owners;
#[cfg(verif_contracts)]
mod contracts_memory;
