//! P11: precise-location requests of the single-threaded allocator, and reacquiring an allocation.
use crate::util::*;
use core::mem;
use static_alloc::bump::{Failure, Level};
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::{Bump, MemBump};
use vcommon::*;

fn precise(b: &mut MemBump, size: usize, align: usize, f: impl FnOnce(&MemBump, Level) -> Result<(usize, Level), Failure>) {
    let (base, cap) = (b.data_ptr().as_ptr() as usize, b.capacity());
    let (c, e): (usize, usize) = (kani::any(), kani::any());
    kani::assume(c <= cap && e <= cap);
    let fits = match align_up(base + e, align) {
        Some(at) => inside(at, size, base, cap),
        None => false,
    };
    let want = level_in(b, e);
    let then = if fits { Some(level_in(b, align_up(base + e, align).unwrap() - base + size)) } else { None };
    let now = level_in(b, c);
    raise_to(b, c);
    match f(b, want) {
        Ok((addr, after)) => {
            assert!(c == e, "P11 succeeds only at the level the allocator is at");
            if size > 0 {
                assert!(fits, "P11 does not hand out what does not fit");
                assert!(Some(addr) == align_up(base + c, align), "P11 placed at the level, corrected for alignment");
                assert!(Some(after) == then, "P11 takes exactly what it needs");
            } else {
                assert!(after == now, "P11 zero-sized needs no space");
            }
            assert!(b.level() == after, "P11 reports the new level");
            kani::cover!(c > 0, "COVER success");
        }
        Err(why) => {
            assert!(b.level() == now, "P11 failure changes nothing");
            match why {
                Failure::Mismatch { observed } => {
                    assert!(c != e, "P11 mismatch only if the level differs");
                    assert!(observed == now, "P11 mismatch reports the actual level");
                    kani::cover!(true, "COVER mismatch");
                }
                Failure::Exhausted => {
                    assert!(!fits && size > 0, "P11 exhausted only if it does not fit at that level");
                    kani::cover!(true, "COVER exhausted");
                }
            }
        }
    }
}

/// Memory of any size.
#[kani::proof]
#[kani::unwind(4)]
fn p11_alloc_at_long() {
    let n: usize = kani::any();
    kani::assume(n < 1 << 46);
    let mut b = MemBump::new(n);
    let l = any_nonempty_layout();
    let (base, cap) = (b.data_ptr().as_ptr() as usize, b.capacity());
    let e = raise(&b);
    let want = b.level();
    b.reset();
    let c = raise(&b);
    let now = b.level();
    let at = align_up(base + e, l.align());
    let fits = at.map_or(false, |at| inside(at, l.size(), base, cap));
    match b.alloc_at(l, want) {
        Ok(p) => {
            assert!(c == e && fits, "P11 succeeds only at the level the allocator is at");
            assert!(Some(p.as_ptr() as usize) == at, "P11 placed at the level, corrected for alignment");
            kani::cover!(c > 1 << 40, "COVER success");
        }
        Err(why) => {
            assert!(b.level() == now, "P11 failure changes nothing");
            match why {
                Failure::Mismatch { observed } => assert!(c != e && observed == now, "P11 mismatch reports the actual level"),
                Failure::Exhausted => assert!(!fits, "P11 exhausted only if it does not fit at that level"),
            }
        }
    }
}

#[kani::proof]
#[kani::unwind(4)]
fn p11_alloc_at() {
    let mut b = Bump::<[u8; 24]>::uninit();
    let l = any_nonempty_layout();
    precise(&mut b, l.size(), l.align(), |b, lv| b.alloc_at(l, lv).map(|p| (p.as_ptr() as usize, b.level())));
}
#[kani::proof]
#[kani::unwind(4)]
fn p11_alloc_at_over() {
    let mut b = Bump::<[Over; 1]>::uninit();
    let l = any_nonempty_layout();
    precise(&mut b, l.size(), l.align(), |b, lv| b.alloc_at(l, lv).map(|p| (p.as_ptr() as usize, b.level())));
}

macro_rules! typed_harness {
    ($($name:ident, $v:ty;)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let mut b = Bump::<[u8; 24]>::uninit();
            precise(&mut b, mem::size_of::<$v>(), mem::align_of::<$v>(), |b, lv| {
                b.get_at::<$v>(lv).map(|a| (a.ptr.as_ptr() as usize, a.level))
            });
        }
    )*};
}
#[repr(C)]
struct Odd(u16, u8);
typed_harness! {
    p11_get_at_u8, u8;
    p11_get_at_u64, u64;
    p11_get_at_odd, Odd;
    p11_get_at_unit, ();
    p11_get_at_sixteen, Sixteen;
}

/// Following the levels, consecutive allocations are adjacent up to alignment padding.
#[kani::proof]
#[kani::unwind(4)]
fn p11_adjacent() {
    let b = Bump::<[u8; 24]>::uninit();
    raise(&b);
    let (l, m) = (any_nonempty_layout(), any_nonempty_layout());
    let Ok(p) = b.alloc_at(l, b.level()) else { return };
    let Ok(q) = b.alloc_at(m, b.level()) else { return };
    assert!(Some(q.as_ptr() as usize) == align_up(p.as_ptr() as usize + l.size(), m.align()), "P11 adjacent");
    kani::cover!(true, "COVER");
}

/// Aligned more than the memory is.
#[derive(Clone, Copy, PartialEq, kani::Arbitrary)]
#[repr(align(16))]
struct Sixteen(u32);
#[derive(Clone, Copy, PartialEq, kani::Arbitrary)]
#[repr(align(128))]
struct Hundred(u32);

/// An allocation made at a level is found again at it, whatever happened since, with its content,
/// and finding it changes nothing.
fn again<V: Copy + PartialEq + kani::Arbitrary, T>(by_get: bool) {
    let b = Bump::<T>::uninit();
    raise(&b);
    let level = b.level();
    let a = if by_get { b.get::<V>() } else { b.get_at::<V>(level).ok() };
    let Some(a) = a else { return };
    let at = a.ptr;
    let v: V = kani::any();
    unsafe { a.leak(v) };
    // Anything else happens.
    let d: usize = kani::any();
    kani::assume(d <= mem::size_of::<T>());
    let mut other = None;
    if d > 0 {
        other = b.alloc(bytes(d));
        if let Some(o) = other {
            unsafe { o.as_ptr().write(17) };
        }
    }
    let before = b.level();
    let r = unsafe { b.get_unchecked::<V>(level) };
    assert!(r.ptr == at, "P11 finds the allocation again");
    assert!(aligned(r.ptr.as_ptr() as usize, mem::align_of::<V>()), "P11 aligned");
    assert!(unsafe { *r.ptr.as_ptr() } == v, "P11 with its content");
    assert!(b.level() == before, "P11 reacquiring takes nothing");
    let w: V = kani::any();
    let own = unsafe { r.boxed(w) };
    assert!(*own == w, "P11 can be used anew");
    mem::forget(own);
    if let Some(o) = other {
        assert!(unsafe { o.as_ptr().read() } == 17, "P11 other allocations stay");
    }
    kani::cover!(other.is_some(), "COVER reacquired");
}
macro_rules! again_harness {
    ($($name:ident, $v:ty, $mem:ty, $by_get:literal;)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() { again::<$v, $mem>($by_get) }
    )*};
}
again_harness! {
    p11_reacquire_u8, u8, [u8; 24], false;
    p11_reacquire_u32, u32, [u8; 24], false;
    p11_reacquire_u64, u64, [u8; 24], true;
    p11_reacquire_sixteen, Sixteen, [u8; 40], true;
    p11_reacquire_hundred, Hundred, [u8; 300], false;
}

/// The same through a box.
#[kani::proof]
#[kani::unwind(4)]
fn p11_reacquire_box() {
    let b = Bump::<[u8; 24]>::uninit();
    raise(&b);
    let level = b.level();
    let Ok(x) = b.bump_box::<u32>() else { return };
    let v: u32 = kani::any();
    let x = LeakBox::write(x, v);
    let at = &*x as *const u32;
    mem::forget(x);
    let Ok(y) = b.bump_box::<u16>() else { return };
    let y = LeakBox::write(y, 7);
    let r = unsafe { b.get_unchecked::<u32>(level) };
    assert!(r.ptr.as_ptr() as *const u32 == at && unsafe { *r.ptr.as_ptr() } == v, "P11 finds the allocation again");
    assert!(*y == 7, "P11 other allocations stay");
    kani::cover!(true, "COVER");
}
