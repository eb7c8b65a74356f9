//! P04: precise-location allocation. A request at a level succeeds only while the allocator is
//! exactly at that level; otherwise nothing changes, and a mismatch reports the actual level.
use crate::util::*;
use core::alloc::Layout;
use core::mem;
use static_alloc::bump::{Failure, Level};
use static_alloc::Bump;
use vcommon::*;

fn precise<T>(b: &mut Bump<T>, size: usize, align: usize, f: impl FnOnce(&Bump<T>, Level) -> Result<(usize, Level), Failure>) {
    let base = base_of(b);
    let cap = mem::size_of::<T>();
    let c = raise(b);
    let e: usize = kani::any();
    kani::assume(e <= cap);
    let want = level_of::<T>(e);
    let before = b.level();
    assert!((want == before) == (c == e), "P04 levels identify fill states");
    let fits = match align_up(base + e, align) {
        Some(at) => inside(at, size, base, cap),
        None => false,
    };
    match f(b, want) {
        Ok((addr, after)) => {
            assert!(c == e, "P04 succeeds only at the level the allocator is at");
            if size > 0 {
                assert!(fits, "P04 does not hand out what does not fit");
                assert!(Some(addr) == align_up(base + c, align), "P04 placed at the level, corrected for alignment");
                assert!(after == level_of::<T>(addr - base + size), "P04 new level is the end of the region");
            } else {
                assert!(after == before, "P04 zero-sized needs no space");
            }
            assert!(b.level() == after, "P04 reports the new level");
            kani::cover!(c > 0, "COVER precise success");
        }
        Err(why) => {
            assert!(b.level() == before, "P04 failure changes nothing");
            match why {
                Failure::Mismatch { observed } => {
                    assert!(c != e, "P04 mismatch only if the level differs");
                    assert!(observed == before, "P04 mismatch reports the actual level");
                    kani::cover!(true, "COVER mismatch");
                }
                Failure::Exhausted => {
                    assert!(!fits && size > 0, "P04 exhausted only if it does not fit at that level");
                    kani::cover!(true, "COVER exhausted");
                }
            }
        }
    }
}

macro_rules! precise_harness {
    ($name:ident, |$b:ident, $l:ident, $lv:ident| $call:expr) => {
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let mut at = At::<24, [u8; 64]>::new();
            let $l = any_nonempty_layout();
            precise(&mut at.bump, $l.size(), $l.align(), |$b, $lv| $call);
        }
    };
}
precise_harness!(p04_alloc_at, |b, l, lv| b.alloc_at(l, lv).map(|a| (a.ptr.as_ptr() as usize, a.level)));
precise_harness!(p04_get_layout_at, |b, l, lv| b.get_layout_at(l, lv).map(|a| (a.ptr.as_ptr() as usize, a.level)));

macro_rules! typed_harness {
    ($name:ident, $v:ty, |$b:ident, $lv:ident, $val:ident| $call:expr) => {
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let mut at = At::<24, [u8; 64]>::new();
            let $val: $v = kani::any();
            precise(&mut at.bump, mem::size_of::<$v>(), mem::align_of::<$v>(), |$b, $lv| $call);
        }
    };
}
typed_harness!(p04_get_at, u32, |b, lv, _v| b.get_at::<u32>(lv).map(|a| (a.ptr.as_ptr() as usize, a.level)));
typed_harness!(p04_get_at_zst, (), |b, lv, _v| b.get_at::<()>(lv).map(|a| (a.ptr.as_ptr() as usize, a.level)));
typed_harness!(p04_leak_at, u32, |b, lv, v| match b.leak_at(v, lv) {
    Ok((r, level)) => {
        assert!(*r == v, "P04 leaked value readable");
        Ok((r as *mut u32 as usize, level))
    }
    Err(e) => {
        let kind = e.kind();
        assert!(e.into_inner() == v, "P04 value returned on failure");
        Err(kind)
    }
});
typed_harness!(p04_leak_box_at, u32, |b, lv, v| b.leak_box_at(v, lv).map(|r| {
    assert!(*r == v, "P04 boxed value readable");
    (&*r as *const u32 as usize, b.level())
}));

/// Following the returned levels, consecutive allocations are adjacent up to alignment padding.
#[kani::proof]
#[kani::unwind(4)]
fn p04_adjacent() {
    let mut at = At::<24, [u8; 64]>::new();
    let b = &mut at.bump;
    let base = base_of(b);
    raise(b);
    let l1 = any_nonempty_layout();
    let l2 = any_nonempty_layout();
    let Ok(a1) = b.get_layout_at(l1, b.level()) else { return };
    let Ok(a2) = b.get_layout_at(l2, a1.level) else { return };
    let end = a1.ptr.as_ptr() as usize + l1.size();
    assert!(Some(a2.ptr.as_ptr() as usize) == align_up(end, l2.align()), "P04 adjacent");
    assert!(base <= end);
    kani::cover!(true, "COVER adjacent");
}

/// Interrupted sequence: an intervening allocation makes the remembered level fail.
#[kani::proof]
#[kani::unwind(4)]
fn p04_intervening() {
    let at = At::<24, [u8; 64]>::new();
    let b = &at.bump;
    raise(b);
    let remembered = b.level();
    let l: Layout = any_nonempty_layout();
    kani::assume(b.alloc(l).is_some());
    let now = b.level();
    match b.get_layout_at(any_nonempty_layout(), remembered) {
        Ok(_) => assert!(false, "P04 stale level refused"),
        Err(_) => assert!(b.level() == now, "P04 nothing changes"),
    }
}
