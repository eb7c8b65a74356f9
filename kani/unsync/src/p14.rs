//! P14: chained allocators. Allocations keep their place and content when further memory is
//! chained in front, come from the memory chained last, never overlap, and all memory is released
//! exactly once with the chain.
use core::mem::{self, ManuallyDrop, MaybeUninit};
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::Chain;
use vcommon::*;

fn place<'c, V: 'c>(c: &'c Chain, v: V) -> Option<LeakBox<'c, V>> {
    let before = c.remaining_capacity();
    match c.bump_box::<V>() {
        Ok(b) => {
            let at = &*b as *const MaybeUninit<V> as usize;
            assert!(aligned(at, mem::align_of::<V>()), "P14 aligned");
            let after = c.remaining_capacity();
            assert!(after <= before && before - after >= mem::size_of::<V>(), "P14 accounted");
            assert!(before - after < mem::size_of::<V>() + mem::align_of::<V>(), "P14 no more than needed");
            Some(LeakBox::write(b, v))
        }
        Err(_) => {
            assert!(c.remaining_capacity() == before, "P14 failure changes nothing");
            assert!(before < mem::size_of::<V>() + mem::align_of::<V>() - 1, "P14 fails only without space");
            None
        }
    }
}

#[kani::proof]
#[kani::unwind(2)]
fn p14_single() {
    let n: usize = kani::any();
    kani::assume(n < 1 << 46);
    let Ok(c) = Chain::new(n) else { return };
    let c = ManuallyDrop::new(c);
    assert!(c.capacity() == n && c.remaining_capacity() == n, "P14 requested capacity");
    let (x, y): (u64, u16) = (kani::any(), kani::any());
    let a = place(&c, y);
    let b = place(&c, x);
    if let Some(a) = &a {
        assert!(**a == y, "P14 value kept");
    }
    if let Some(b) = &b {
        assert!(**b == x, "P14 value kept");
        kani::cover!(a.is_some(), "COVER two values");
    }
}

/// Chaining keeps the old memory alive and adds the new.
macro_rules! chain_harness {
    ($($name:ident, $n:literal, $m:literal;)*) => {$(
        #[kani::proof]
        #[kani::unwind(2)]
        fn $name() { chain($n, $m) }
    )*};
}
chain_harness! {
    p14_chain_empty, 0, 0;
    p14_chain_tight, 4, 8;
    p14_chain_odd, 7, 13;
    p14_chain_wide, 16, 24;
}
fn chain(n: usize, m: usize) {
    let (Ok(c), Ok(d)) = (Chain::new(n), Chain::new(m)) else { return };
    let c = ManuallyDrop::new(c);
    let (x, y): (u32, u64) = (kani::any(), kani::any());
    let a = place(&c, x);
    c.chain(d);
    assert!(c.capacity() == m && c.remaining_capacity() == m, "P14 allocates from the new memory first");
    let b = place(&c, y);
    assert!(m < 16 || b.is_some(), "P14 the new memory is available");
    if let Some(a) = &a {
        assert!(**a == x, "P14 earlier value kept");
        if let Some(b) = &b {
            let (p, q) = (&**a as *const u32 as usize, &**b as *const u64 as usize);
            assert!(p + 4 <= q || q + 8 <= p, "P14 no overlap");
            kani::cover!(true, "cover both");
        }
    }
    if let Some(b) = &b {
        assert!(**b == y, "P14 later value kept");
    }
    kani::cover!(true, "COVER chained");
}

/// Three levels: all memory stays until the chain goes, and goes with it.
#[kani::proof]
#[kani::unwind(2)]
fn p14_three() {
    let (Ok(c), Ok(d), Ok(e)) = (Chain::new(16), Chain::new(16), Chain::new(16)) else { return };
    let c = ManuallyDrop::new(c);
    let (x, y, z): (u32, u32, u32) = (kani::any(), kani::any(), kani::any());
    let a = place(&c, x).unwrap();
    c.chain(d);
    let b = place(&c, y).unwrap();
    c.chain(e);
    let f = place(&c, z).unwrap();
    assert!(*a == x && *b == y && *f == z, "P14 all values kept");
    kani::cover!(true, "COVER three");
}

/// Chaining a chain of several keeps at least its first memory and drops nothing of one's own.
#[kani::proof]
#[kani::unwind(2)]
fn p14_chain_of_chains() {
    let (Ok(c), Ok(d), Ok(e)) = (Chain::new(16), Chain::new(16), Chain::new(24)) else { return };
    let c = ManuallyDrop::new(c);
    let x: u32 = kani::any();
    let a = place(&c, x).unwrap();
    d.chain(e);
    c.chain(d);
    assert!(c.capacity() == 24, "P14 allocates from the first of the new memory");
    let b = place(&c, 3u64).unwrap();
    assert!(*a == x && *b == 3, "P14 all values kept");
    kani::cover!(true, "COVER");
}

/// Values of no size need no memory, and are kept, aligned and dropped as any other.
#[kani::proof]
#[kani::unwind(2)]
fn p14_no_size() {
    static mut DROPS: usize = 0;
    #[repr(align(32))]
    struct Empty;
    impl Drop for Empty {
        fn drop(&mut self) {
            unsafe { DROPS += 1 }
        }
    }
    let dropped = || unsafe { DROPS };
    let n: usize = kani::any();
    kani::assume(n <= 8);
    let (Ok(c), Ok(d)) = (Chain::new(8), Chain::new(n)) else { return };
    let c = ManuallyDrop::new(c);
    let a = if kani::any() { c.bump_box::<u8>().ok() } else { None };
    if kani::any() {
        c.chain(d);
    } else {
        mem::forget(d);
    }
    let before = c.remaining_capacity();
    let b = c.bump_box::<Empty>().ok();
    assert!(c.remaining_capacity() == before, "P14 nothing is used");
    let Some(b) = b else { panic!("P14 nothing is needed") };
    let at = &*b as *const MaybeUninit<Empty> as usize;
    assert!(aligned(at, 32), "P14 aligned");
    let b = LeakBox::write(b, Empty);
    assert!(dropped() == 0, "P14 the value is kept");
    drop(b);
    assert!(dropped() == 1, "P14 the value is dropped with its box");
    kani::cover!(a.is_some(), "COVER");
}

/// Sizes that are no layout are refused.
#[kani::proof]
#[kani::unwind(2)]
fn p14_impossible() {
    let n: usize = kani::any();
    kani::assume(n > isize::MAX as usize - 64);
    match Chain::new(n) {
        Ok(c) => {
            mem::forget(c);
            assert!(n <= isize::MAX as usize, "P14 impossible sizes are refused");
        }
        Err(e) => {
            let _ = e.allocation_size();
            kani::cover!(true, "COVER refused");
        }
    }
}

/// A longer chain, memory chained one by one (bounded).
#[kani::proof]
#[kani::unwind(12)]
fn p14_long_bounded() {
    let Ok(c) = Chain::new(8) else { return };
    let c = ManuallyDrop::new(c);
    let mut kept: [Option<LeakBox<'_, u32>>; 10] = [const { None }; 10];
    for i in 0..10 {
        kept[i] = place(&c, i as u32);
        assert!(kept[i].is_some(), "P14 there is room");
        let Ok(d) = Chain::new(16 + i) else { return };
        c.chain(d);
        assert!(c.capacity() == 16 + i && c.remaining_capacity() == 16 + i, "P14 allocates from the new memory first");
    }
    for i in 0..10 {
        assert!(kept[i].as_deref() == Some(&(i as u32)), "P14 all values kept");
    }
    kani::cover!(true, "COVER");
}

/// Of the memory that is requested no more is needed here than how much it is.
static mut WANT: usize = 0;
unsafe fn enough(layout: core::alloc::Layout) -> *mut u8 {
    assert!(layout.size() >= WANT, "P14 memory for the requested capacity");
    kani::cover!(layout.size() > 1 << 60, "cover requested");
    core::ptr::null_mut()
}

/// A capacity of any size is requested completely, or refused.
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(std::alloc::alloc, enough)]
#[kani::stub(std::alloc::alloc_zeroed, enough)]
fn p14_requested() {
    let n: usize = kani::any();
    unsafe { WANT = n };
    let c = Chain::new(n);
    assert!(c.is_err(), "P14 no chain without memory");
}
