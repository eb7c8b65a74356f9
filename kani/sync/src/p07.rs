//! P07: contents of fresh allocations.
use crate::util::*;
use alloc_traits::{LocalAlloc, NonZeroLayout};
use core::alloc::{GlobalAlloc, Layout};
use core::ptr::NonNull;
use static_alloc::Bump;
use vcommon::*;

type Mem = [u8; 48];

/// Memory created zeroed is zero in every allocation of any history.
#[kani::proof]
#[kani::unwind(4)]
fn p07_zeroed() {
    let b = Bump::<Mem>::zeroed();
    raise(&b);
    let l = any_nonempty_layout();
    let i: usize = kani::any();
    kani::assume(i < l.size());
    if let Some(p) = b.alloc(l) {
        assert!(unsafe { p.as_ptr().add(i).read() } == 0, "P07 zeroed memory");
        kani::cover!(true, "COVER zeroed");
    }
}

/// Memory created from a value hands out the bytes of that value, in order.
#[kani::proof]
#[kani::unwind(4)]
fn p07_new() {
    let storage: Mem = kani::any();
    let mut b = Bump::new(storage);
    let base = base_of(&mut b);
    raise(&b);
    let l = any_nonempty_layout();
    let i: usize = kani::any();
    kani::assume(i < l.size());
    if let Some(p) = b.alloc(l) {
        let at = p.as_ptr() as usize - base + i;
        assert!(unsafe { p.as_ptr().add(i).read() } == storage[at], "P07 bytes of the storage");
        kani::cover!(i > 0, "COVER new");
    }
}

/// A zeroed request gives zeroes whatever the memory held before.
fn zeroed_request(f: fn(&Bump<Mem>, Layout) -> Option<NonNull<u8>>) {
    let storage: Mem = kani::any();
    let b = Bump::new(storage);
    raise(&b);
    let l = any_nonempty_layout();
    let i: usize = kani::any();
    kani::assume(i < l.size());
    let before = b.level();
    match f(&b, l) {
        Some(p) => {
            assert!(aligned(p.as_ptr() as usize, l.align()), "P07 aligned");
            assert!(unsafe { p.as_ptr().add(i).read() } == 0, "P07 zeroed request");
            kani::cover!(i > 3, "COVER zeroed request");
        }
        None => assert!(b.level() == before, "P07 failure changes nothing"),
    }
}
#[kani::proof]
#[kani::unwind(4)]
fn p07_global_alloc_zeroed() {
    zeroed_request(|b, l| NonNull::new(unsafe { GlobalAlloc::alloc_zeroed(b, l) }));
}
#[kani::proof]
#[kani::unwind(4)]
fn p07_local_alloc_zeroed() {
    zeroed_request(|b, l| {
        let l = NonZeroLayout::from_layout(l.into()).unwrap();
        LocalAlloc::alloc_zeroed(b, l).map(|a| {
            assert!(a.layout == l, "P07 reports the requested layout");
            a.ptr
        })
    });
}

/// Allocating itself never writes to memory: what was handed out before keeps its content.
#[kani::proof]
#[kani::unwind(4)]
fn p07_no_interference() {
    let b = Bump::<Mem>::zeroed();
    let l = any_nonempty_layout();
    let Some(p) = b.alloc(l) else { return };
    let (i, x): (usize, u8) = (kani::any(), kani::any());
    kani::assume(i < l.size());
    unsafe { p.as_ptr().add(i).write(x) };
    let m = any_nonempty_layout();
    let zeroed: bool = kani::any();
    let r = if zeroed { NonNull::new(unsafe { GlobalAlloc::alloc_zeroed(&b, m) }) } else { b.alloc(m) };
    assert!(unsafe { p.as_ptr().add(i).read() } == x, "P07 earlier content is kept");
    kani::cover!(r.is_some() && zeroed, "COVER two regions");
}
