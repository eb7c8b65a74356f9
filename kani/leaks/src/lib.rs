//! Harnesses run with CBMC's leak check: all memory obtained is released again, once.
#![cfg(kani)]
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::{Chain, MemBump};

#[kani::proof]
#[kani::unwind(2)]
fn p14_release_one() {
    let Ok(c) = Chain::new(16) else { return };
    if let Ok(b) = c.bump_box::<u32>() {
        let b = LeakBox::write(b, 5);
        assert!(*b == 5, "P14 value kept");
    }
    drop(c);
    kani::cover!(true, "COVER");
}

#[kani::proof]
#[kani::unwind(3)]
fn p14_release_two() {
    let (Ok(c), Ok(d)) = (Chain::new(16), Chain::new(8)) else { return };
    c.chain(d);
    let _ = c.bump_box::<u32>().is_ok();
    drop(c);
    kani::cover!(true, "COVER");
}

#[kani::proof]
#[kani::unwind(4)]
fn p14_release_three() {
    let (Ok(c), Ok(d), Ok(e)) = (Chain::new(16), Chain::new(8), Chain::new(8)) else { return };
    c.chain(d);
    c.chain(e);
    drop(c);
    kani::cover!(true, "COVER");
}

/// Memory of a chained chain that is not kept is released, too.
#[kani::proof]
#[kani::unwind(3)]
fn p14_release_chain_of_chains() {
    let (Ok(c), Ok(d), Ok(e)) = (Chain::new(16), Chain::new(8), Chain::new(8)) else { return };
    d.chain(e);
    c.chain(d);
    drop(c);
    kani::cover!(true, "COVER");
}

#[kani::proof]
#[kani::unwind(4)]
fn p12_heap_release() {
    let n: usize = kani::any();
    kani::assume(n < 1 << 46);
    drop(MemBump::new(n));
    kani::cover!(true, "COVER");
}
