//! P01-P05 for memory of 2^40 bytes, where sizes, levels and paddings have their full range. The
//! end of a region shows in where the next one starts.
use crate::util::*;
use alloc_traits::{LocalAlloc, NonZeroLayout};
use core::alloc::{GlobalAlloc, Layout};
use core::mem;
use core::ptr::NonNull;
use static_alloc::bump::Failure;
use static_alloc::Bump;
use vcommon::*;

const CAP: usize = 1 << 40;
type Huge = Bump<[u8; CAP]>;

fn spec(base: usize, c: usize, size: usize, align: usize) -> Option<usize> {
    let at = align_up(base + c, align)? - base;
    if at <= CAP && size <= CAP - at { Some(at) } else { None }
}

macro_rules! both {
    ($($p01:ident, $p02:ident, $p03:ident, |$b:ident, $l:ident| $call:expr;)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $p01() {
            let $b: &mut Huge = huge(24);
            let me = $b as *const Huge as usize;
            let $b = &*$b;
            raise($b);
            let $l = any_nonempty_layout();
            let r: Option<NonNull<u8>> = $call;
            let Some(p) = r else { return };
            let at = p.as_ptr() as usize;
            assert!(inside(at, $l.size(), me, mem::size_of::<Huge>()), "P01 region inside the allocator");
            assert!(aligned(at, $l.align()), "P01 region aligned as requested");
            let before = $b.level();
            let i: usize = kani::any();
            kani::assume(i < $l.size());
            unsafe { p.as_ptr().add(i).write(kani::any()) };
            assert!($b.level() == before, "P01 writing the region leaves allocator state alone");
            kani::cover!($l.size() > 1 << 38, "COVER allocation succeeds");
        }
        #[kani::proof]
        #[kani::unwind(4)]
        fn $p02() {
            let b: &mut Huge = huge(8);
            let b = &*b;
            raise(b);
            let one = any_nonempty_layout();
            let two = any_nonempty_layout();
            let Some(p) = ({ let ($b, $l) = (b, one); $call }) else { return };
            let Some(q) = b.alloc(two) else { return };
            let (p, q) = (p.as_ptr() as usize, q.as_ptr() as usize);
            assert!(p + one.size() <= q || q + two.size() <= p, "P02 regions do not overlap");
            kani::cover!(one.size() > 1 << 38, "COVER two");
        }
        #[kani::proof]
        #[kani::unwind(4)]
        fn $p03() {
            let b: &mut Huge = huge(56);
            let base = base_of(b);
            let c = raise(b);
            let before = b.level();
            let l = any_nonempty_layout();
            let r = { let ($b, $l) = (&*b, l); $call };
            let end = match (spec(base, c, l.size(), l.align()), r) {
                (Some(at), Some(p)) => {
                    assert!(p.as_ptr() as usize == base + at, "P03 placed at the first aligned address");
                    assert!(b.level() > before, "P03 level grows");
                    kani::cover!(at > c && l.size() > 1 << 38, "COVER with padding");
                    at + l.size()
                }
                (None, None) => {
                    assert!(b.level() == before, "P03 failure leaves the level");
                    kani::cover!(c < CAP, "COVER failure with space left");
                    c
                }
                (Some(_), None) => panic!("P03 an allocation that fits succeeds"),
                (None, Some(_)) => panic!("P03 an allocation that does not fit fails"),
            };
            let next = b.alloc(bytes(1)).map(|p| p.as_ptr() as usize);
            assert!(next == if end < CAP { Some(base + end) } else { None }, "P03 level is the end of the region");
        }
    )*};
}
both! {
    p01_large_alloc, p02_large_alloc, p03_large_alloc, |b, l| b.alloc(l);
    p01_large_get_layout, p02_large_get_layout, p03_large_get_layout, |b, l| b.get_layout(l).map(|a| a.ptr);
    p01_large_at, p02_large_at, p03_large_at, |b, l| b.get_layout_at(l, b.level()).ok().map(|a| a.ptr);
    p01_large_global, p02_large_global, p03_large_global, |b, l| NonNull::new(unsafe { GlobalAlloc::alloc(b, l) });
    p01_large_local, p02_large_local, p03_large_local, |b, l| {
        LocalAlloc::alloc(b, NonZeroLayout::from_layout(l.into()).unwrap()).map(|a| a.ptr)
    };
}

/// Precise requests at any two levels.
#[kani::proof]
#[kani::unwind(4)]
fn p04_large() {
    let b: &mut Huge = huge(24);
    let base = base_of(b);
    let e = raise(b);
    let want = b.level();
    b.reset();
    let c = raise(b);
    let now = b.level();
    let l: Layout = any_nonempty_layout();
    let at = spec(base, e, l.size(), l.align());
    match b.get_layout_at(l, want) {
        Ok(a) => {
            assert!(c == e && at.is_some(), "P04 succeeds only at the level the allocator is at");
            assert!(a.ptr.as_ptr() as usize == base + at.unwrap(), "P04 placed at the level, corrected for alignment");
            assert!(b.level() == a.level && a.level > now, "P04 reports the new level");
            kani::cover!(c > 1 << 38, "COVER precise success");
        }
        Err(why) => {
            assert!(b.level() == now, "P04 failure changes nothing");
            match why {
                Failure::Mismatch { observed } => assert!(c != e && observed == now, "P04 mismatch reports the actual level"),
                Failure::Exhausted => assert!(at.is_none(), "P04 exhausted only if it does not fit at that level"),
            }
        }
    }
}

/// Memory keeps what it holds, and zeroed requests are zero, however large the memory is.
#[kani::proof]
#[kani::unwind(4)]
fn p07_large() {
    let b: &mut Huge = huge(24);
    let b = &*b;
    raise(b);
    let (l, m) = (any_nonempty_layout(), any_nonempty_layout());
    let (i, x): (usize, u8) = (kani::any(), kani::any());
    kani::assume(i < l.size());
    let Some(p) = b.alloc(l) else { return };
    unsafe { p.as_ptr().add(i).write(x) };
    let j: usize = kani::any();
    kani::assume(j < m.size());
    let Some(q) = b.alloc(m) else { return };
    assert!(unsafe { p.as_ptr().add(i).read() } == x, "P07 allocating changes no region");
    unsafe { q.as_ptr().add(j).write(kani::any()) };
    assert!(unsafe { p.as_ptr().add(i).read() } == x, "P07 writing a region changes no other");
    kani::cover!(l.size() > 1 << 38, "COVER");
}

/// Types of any size and alignment.
macro_rules! large_types {
    ($($name:ident, $p01:ident, $p03:ident, $align:literal, $size:literal;)*) => {$(
        #[repr(align($align))]
        #[allow(dead_code)]
        struct $name([u8; $size]);

        #[kani::proof]
        #[kani::unwind(4)]
        fn $p01() {
            let b: &mut Huge = huge(24);
            let me = b as *const Huge as usize;
            let b = &*b;
            raise(b);
            let r = if kani::any() { b.get::<$name>() } else { b.get_at::<$name>(b.level()).ok() };
            let Some(a) = r else { return };
            let at = a.ptr.as_ptr() as usize;
            assert!(inside(at, mem::size_of::<$name>(), me, mem::size_of::<Huge>()), "P01 region inside the allocator");
            assert!(aligned(at, mem::align_of::<$name>()), "P01 region aligned as requested");
            kani::cover!(true, "COVER allocation succeeds");
        }
        #[kani::proof]
        #[kani::unwind(4)]
        fn $p03() {
            let b: &mut Huge = huge(56);
            let base = base_of(b);
            let c = raise(b);
            let r = if kani::any() { b.get::<$name>() } else { b.get_at::<$name>(b.level()).ok() };
            let r = r.map(|a| a.ptr.as_ptr() as usize - base);
            assert!(r == spec(base, c, mem::size_of::<$name>(), mem::align_of::<$name>()), "P03 typed requests are exact");
            let end = r.map_or(c, |at| at + mem::size_of::<$name>());
            let next = b.alloc(bytes(1)).map(|p| p.as_ptr() as usize);
            assert!(next == if end < CAP { Some(base + end) } else { None }, "P03 level is the end of the region");
            kani::cover!(r.is_some(), "COVER allocation succeeds");
        }
    )*};
}
large_types! {
    Block, p01_large_block, p03_large_block, 1, 300;
    Aligned128, p01_large_128, p03_large_128, 128, 3;
    Aligned512, p01_large_512, p03_large_512, 512, 3;
    Aligned4096, p01_large_4096, p03_large_4096, 4096, 3;
    Aligned65536, p01_large_65536, p03_large_65536, 65536, 3;
}
