//! P01: a successful allocation is inside the allocator's own memory, aligned, and large enough.
use crate::util::*;
use alloc_traits::{LocalAlloc, NonZeroLayout};
use core::alloc::GlobalAlloc;
use core::mem;
use core::ptr::NonNull;
use static_alloc::Bump;
use vcommon::*;

/// The postcondition of every allocating function.
fn post<T>(b: &Bump<T>, size: usize, align: usize, r: Option<NonNull<u8>>) {
    if let Some(p) = r {
        let at = p.as_ptr() as usize;
        let me = b as *const Bump<T> as usize;
        assert!(inside(at, size, me, mem::size_of::<Bump<T>>()), "P01 region inside the allocator");
        assert!(aligned(at, align), "P01 region aligned as requested");
        // The level is allocator state: handing out the bytes it lives in would corrupt it.
        let before = b.level();
        if size > 0 {
            let i: usize = kani::any();
            kani::assume(i < size);
            unsafe { p.as_ptr().add(i).write(kani::any()) };
        }
        assert!(b.level() == before, "P01 writing the region leaves allocator state alone");
        kani::cover!(true, "COVER allocation succeeds");
    }
}

macro_rules! layout_harness {
    ($name:ident, $pre:literal, $t:ty, |$b:ident, $l:ident| $call:expr) => {
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let at = At::<$pre, $t>::new();
            let $b = &at.bump;
            raise($b);
            let $l = any_nonempty_layout();
            let r = $call;
            post($b, $l.size(), $l.align(), r);
        }
    };
}

layout_harness!(p01_alloc, 24, [u8; 64], |b, l| b.alloc(l));
layout_harness!(p01_alloc_align16, 48, [[u128; 2]; 3], |b, l| b.alloc(l));
layout_harness!(p01_alloc_align64, 64, Line, |b, l| b.alloc(l));
layout_harness!(p01_alloc_odd, 8, [u16; 5], |b, l| b.alloc(l));
layout_harness!(p01_get_layout, 24, [u8; 64], |b, l| b.get_layout(l).map(|a| a.ptr));
layout_harness!(p01_alloc_at, 24, [u8; 64], |b, l| b.alloc_at(l, b.level()).ok().map(|a| a.ptr));
layout_harness!(p01_get_layout_at, 24, [u8; 64], |b, l| b.get_layout_at(l, b.level()).ok().map(|a| a.ptr));
layout_harness!(p01_global_alloc, 24, [u8; 64], |b, l| NonNull::new(unsafe { GlobalAlloc::alloc(b, l) }));
layout_harness!(p01_local_alloc, 24, [u8; 64], |b, l| {
    let l = NonZeroLayout::from_layout(l.into()).unwrap();
    LocalAlloc::alloc(b, l).map(|a| {
        assert!(a.layout == l, "P01 reported layout is the requested one");
        a.ptr
    })
});

#[repr(align(64))]
#[allow(dead_code)]
struct Line([u8; 64]);

static PAGE: Bump<[u8; 4096]> = Bump::uninit();

#[kani::proof]
#[kani::unwind(4)]
fn p01_alloc_static() {
    raise(&PAGE);
    let l = any_nonempty_layout();
    post(&PAGE, l.size(), l.align(), PAGE.alloc(l));
}

/// Typed allocations, including zero-sized types of any alignment.
fn typed<V, T>(b: &Bump<T>) {
    raise(b);
    let r = if kani::any() { b.get::<V>() } else { b.get_at::<V>(b.level()).ok() };
    if let Some(a) = r {
        if mem::size_of::<V>() > 0 {
            post(b, mem::size_of::<V>(), mem::align_of::<V>(), Some(a.ptr.cast()));
        } else {
            assert!(aligned(a.ptr.as_ptr() as usize, mem::align_of::<V>()), "P01 zero-sized aligned");
            kani::cover!(true, "COVER zero-sized allocation");
        }
    } else {
        assert!(mem::size_of::<V>() > 0, "P01 zero-sized allocations always succeed");
    }
}

#[repr(align(32))]
#[derive(Clone, Copy)]
#[allow(dead_code)]
struct Over(u8);
#[repr(align(256))]
struct ZstOver;

macro_rules! typed_harness {
    ($name:ident, $pre:literal, $t:ty, $v:ty) => {
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let at = At::<$pre, $t>::new();
            typed::<$v, $t>(&at.bump);
        }
    };
}
typed_harness!(p01_get_u8, 24, [u8; 64], u8);
typed_harness!(p01_get_u64, 24, [u8; 64], u64);
typed_harness!(p01_get_odd, 24, [u8; 64], [u16; 3]);
typed_harness!(p01_get_over, 24, [u8; 64], Over);
typed_harness!(p01_get_zst, 24, [u8; 64], ());
typed_harness!(p01_get_zst_over, 24, [u8; 64], ZstOver);

/// Allocators without any memory never hand out a region.
#[kani::proof]
#[kani::unwind(4)]
fn p01_empty_memory() {
    let b = Bump::<()>::uninit();
    let l = any_nonempty_layout();
    assert!(b.alloc(l).is_none(), "P01 no memory, no allocation");
    assert!(b.get_layout(l).is_none(), "P01 no memory, no allocation");
    assert!(b.get::<u8>().is_none(), "P01 no memory, no allocation");
    assert!(unsafe { GlobalAlloc::alloc(&b, l) }.is_null(), "P01 no memory, no allocation");
}
