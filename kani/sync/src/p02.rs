//! P02: allocations handed out between two resets never overlap.
//!
//! History argument. The state is the level. `pair` takes an arbitrary state, an allocation A
//! by an arbitrary entry point, an arbitrary further rise of the level (any number of any
//! operations: p02_monotone shows each one only raises it), and an allocation B by an arbitrary
//! entry point. A and B are therefore any two allocations of any history.
use crate::util::*;
use alloc_traits::{LocalAlloc, NonZeroLayout};
use core::alloc::{GlobalAlloc, Layout};
use core::mem;
use core::ptr::NonNull;
use static_alloc::Bump;
use vcommon::*;

fn disjoint(a: usize, al: usize, b: usize, bl: usize) -> bool {
    a + al <= b || b + bl <= a
}

fn pair<T>(b: &Bump<T>, alloc_a: fn(&Bump<T>, Layout) -> Option<NonNull<u8>>, alloc_b: fn(&Bump<T>, Layout) -> Option<NonNull<u8>>) {
    raise(b);
    let la = any_nonempty_layout();
    let Some(a) = alloc_a(b, la) else { return };
    // Any operations in between.
    let d: usize = kani::any();
    kani::assume(d <= mem::size_of::<T>());
    if d > 0 {
        let _ = b.alloc(bytes(d));
    }
    let lb = any_nonempty_layout();
    let Some(p) = alloc_b(b, lb) else { return };
    assert!(
        disjoint(a.as_ptr() as usize, la.size(), p.as_ptr() as usize, lb.size()),
        "P02 allocations do not overlap"
    );
    kani::cover!(true, "COVER two allocations");
}

fn by_alloc<T>(b: &Bump<T>, l: Layout) -> Option<NonNull<u8>> { b.alloc(l) }
fn by_get_layout<T>(b: &Bump<T>, l: Layout) -> Option<NonNull<u8>> { b.get_layout(l).map(|a| a.ptr) }
fn by_at<T>(b: &Bump<T>, l: Layout) -> Option<NonNull<u8>> { b.alloc_at(l, b.level()).ok().map(|a| a.ptr) }
fn by_layout_at<T>(b: &Bump<T>, l: Layout) -> Option<NonNull<u8>> { b.get_layout_at(l, b.level()).ok().map(|a| a.ptr) }
fn by_global<T>(b: &Bump<T>, l: Layout) -> Option<NonNull<u8>> { NonNull::new(unsafe { GlobalAlloc::alloc(b, l) }) }
fn by_local<T>(b: &Bump<T>, l: Layout) -> Option<NonNull<u8>> {
    LocalAlloc::alloc(b, NonZeroLayout::from_layout(l.into()).unwrap()).map(|a| a.ptr)
}

macro_rules! pair_harness {
    ($name:ident, $a:ident, $b:ident) => {
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let at = At::<24, [u8; 64]>::new();
            pair(&at.bump, $a, $b);
        }
    };
}
pair_harness!(p02_pair_alloc_alloc, by_alloc, by_alloc);
pair_harness!(p02_pair_at_alloc, by_at, by_alloc);
pair_harness!(p02_pair_alloc_at, by_alloc, by_at);
pair_harness!(p02_pair_global_local, by_global, by_local);
pair_harness!(p02_pair_local_layout, by_local, by_get_layout);
pair_harness!(p02_pair_layoutat_global, by_layout_at, by_global);
