//! P03: exact accounting. From any state, for any layout, an allocation succeeds exactly if the
//! first aligned address at or behind the level leaves room for it, is placed at that address,
//! and moves the level to its end. A failing allocation changes nothing. Resetting and creating
//! give the empty state.
use crate::util::*;
use alloc_traits::{LocalAlloc, NonZeroLayout};
use core::alloc::{GlobalAlloc, Layout};
use core::mem;
use core::ptr::NonNull;
use static_alloc::bump::Level;
use static_alloc::Bump;
use vcommon::*;

/// Where the specification places an allocation: offset of its first byte.
fn spec(base: usize, c: usize, cap: usize, size: usize, align: usize) -> Option<usize> {
    let at = align_up(base + c, align)? - base;
    if at <= cap && size <= cap - at { Some(at) } else { None }
}

fn step<T>(b: &mut Bump<T>, f: impl FnOnce(&Bump<T>, Layout) -> Option<(NonNull<u8>, Option<Level>)>) {
    let base = base_of(b);
    let cap = mem::size_of::<T>();
    let c = raise(b);
    let before = b.level();
    let l = any_nonempty_layout();
    let r = f(b, l);
    match (spec(base, c, cap, l.size(), l.align()), r) {
        (Some(at), Some((p, reported))) => {
            assert!(p.as_ptr() as usize == base + at, "P03 placed at the first aligned address");
            assert!(b.level() == level_of::<T>(at + l.size()), "P03 level is the end of the region");
            assert!(b.level() > before, "P03 level grows");
            if let Some(lv) = reported {
                assert!(lv == b.level(), "P03 reported level is the new level");
            }
            kani::cover!(at > c, "COVER with padding");
            kani::cover!(at + l.size() == cap, "COVER exactly full");
        }
        (None, None) => {
            assert!(b.level() == before, "P03 failure leaves the level");
            kani::cover!(c < cap, "COVER failure with space left");
        }
        (Some(_), None) => assert!(false, "P03 an allocation that fits succeeds"),
        (None, Some(_)) => assert!(false, "P03 an allocation that does not fit fails"),
    }
}

macro_rules! step_harness {
    ($name:ident, $pre:literal, $t:ty, |$b:ident, $l:ident| $call:expr) => {
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let mut at = At::<$pre, $t>::new();
            step(&mut at.bump, |$b, $l| $call);
        }
    };
}
step_harness!(p03_alloc, 24, [u8; 64], |b, l| b.alloc(l).map(|p| (p, None)));
step_harness!(p03_alloc_odd, 40, [u16; 5], |b, l| b.alloc(l).map(|p| (p, None)));
step_harness!(p03_get_layout, 24, [u8; 64], |b, l| b.get_layout(l).map(|a| (a.ptr, Some(a.level))));
step_harness!(p03_global_alloc, 24, [u8; 64], |b, l| NonNull::new(unsafe { GlobalAlloc::alloc(b, l) }).map(|p| (p, None)));
step_harness!(p03_local_alloc, 24, [u8; 64], |b, l| {
    LocalAlloc::alloc(b, NonZeroLayout::from_layout(l.into()).unwrap()).map(|a| (a.ptr, None))
});

/// Typed allocation agrees with the layout of the type.
fn typed<V, T>(b: &mut Bump<T>) {
    let base = base_of(b);
    let cap = mem::size_of::<T>();
    let c = raise(b);
    let before = b.level();
    match (spec(base, c, cap, mem::size_of::<V>(), mem::align_of::<V>()), b.get::<V>()) {
        (_, Some(a)) if mem::size_of::<V>() == 0 => {
            assert!(a.level == before && b.level() == before, "P03 zero-sized values need no space");
            kani::cover!(true, "COVER zero-sized");
        }
        (Some(at), Some(a)) => {
            assert!(a.ptr.as_ptr() as usize == base + at, "P03 placed at the first aligned address");
            assert!(a.level == b.level(), "P03 reported level is the new level");
            assert!(b.level() == level_of::<T>(at + mem::size_of::<V>()), "P03 level is the end of the region");
            kani::cover!(true, "COVER typed");
        }
        (None, None) => assert!(b.level() == before, "P03 failure leaves the level"),
        _ => assert!(false, "P03 typed allocation succeeds exactly if the value fits"),
    }
}
macro_rules! typed_harness {
    ($name:ident, $v:ty) => {
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let mut at = At::<24, [u8; 64]>::new();
            typed::<$v, _>(&mut at.bump);
        }
    };
}
typed_harness!(p03_get_u64, u64);
typed_harness!(p03_get_odd, [u16; 3]);
typed_harness!(p03_get_zst, ());

/// All ways to obtain an empty allocator agree, and a reset is one of them.
#[kani::proof]
#[kani::unwind(4)]
fn p03_empty_state() {
    let mut at = At::<24, [u8; 64]>::new();
    let fresh = at.bump.level();
    assert!(Bump::<[u8; 64]>::zeroed().level() == fresh, "P03 zeroed starts empty");
    assert!(Bump::<[u8; 64]>::new([0; 64]).level() == fresh, "P03 new starts empty");
    let base = base_of(&mut at.bump);
    raise(&at.bump);
    at.bump.reset();
    assert!(at.bump.level() == fresh, "P03 reset empties");
    let all = at.bump.alloc(bytes(64));
    assert!(all.map(|p| p.as_ptr() as usize) == Some(base), "P03 all memory available again");
    assert!(at.bump.alloc(bytes(1)).is_none(), "P03 and then exhausted");
}
