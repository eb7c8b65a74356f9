//! P08: placing values. The reference or box shows exactly the value that was passed, in memory of
//! the allocator and suitably aligned; on failure the value comes back (`leak*`) or is dropped
//! exactly once (`leak_box*`), and nothing is taken from the allocator.
use crate::util::*;
use core::cell::Cell;
use core::mem;
use static_alloc::bump::Failure;
use static_alloc::leaked::LeakBox;
use static_alloc::Bump;
use vcommon::*;

#[derive(Clone, Copy, PartialEq, kani::Arbitrary)]
struct Three(u16, u16, u16);

#[derive(Clone, Copy, PartialEq, kani::Arbitrary)]
struct Mixed {
    a: u8,
    b: u32,
    c: u16,
}

#[derive(Clone, Copy, PartialEq, kani::Arbitrary)]
#[repr(align(32))]
struct Over(u16);

#[derive(Clone, Copy, PartialEq, kani::Arbitrary)]
#[repr(align(128))]
struct Over128(u16);

fn placed<V, T>(b: &Bump<T>, p: *const V) {
    let (at, me) = (p as usize, b as *const _ as usize);
    assert!(aligned(at, mem::align_of::<V>()), "P08 aligned");
    if mem::size_of::<V>() > 0 {
        assert!(inside(at, mem::size_of::<V>(), me, mem::size_of::<Bump<T>>()), "P08 inside the memory");
    }
}

fn value<V: Copy + PartialEq + kani::Arbitrary, T>(mode: u8) {
    let b = &Bump::<T>::uninit();
    raise(b);
    let (v, w): (V, V) = (kani::any(), kani::any());
    let before = b.level();
    match mode {
        0 => match b.leak(v) {
            Ok(r) => {
                placed(b, r);
                assert!(*r == v, "P08 leaked value");
                *r = w;
                assert!(*r == w, "P08 leaked value is writable");
                kani::cover!(true, "COVER leak");
            }
            Err(e) => {
                assert!(e.kind() == Failure::Exhausted, "P08 reason");
                assert!(e.into_inner() == v, "P08 value returned");
                assert!(b.level() == before, "P08 nothing taken");
                kani::cover!(true, "COVER leak failure");
            }
        },
        1 => match b.leak_box(v) {
            Some(mut r) => {
                placed(b, &*r as *const V);
                assert!(*r == v, "P08 boxed value");
                *r = w;
                assert!(*r == w, "P08 boxed value is writable");
                assert!(LeakBox::take(r) == w, "P08 taken value");
                kani::cover!(true, "COVER box");
            }
            None => assert!(b.level() == before, "P08 nothing taken"),
        },
        2 => match b.get::<V>() {
            Some(a) => {
                let p = a.ptr.as_ptr();
                let r = unsafe { a.leak(v) };
                assert!(r as *mut V == p && *r == v, "P08 leaked into the allocation");
                kani::cover!(true, "COVER allocation");
            }
            None => assert!(b.level() == before, "P08 nothing taken"),
        },
        3 => match b.get::<V>() {
            Some(a) => {
                let p = a.ptr.as_ptr();
                let mut r = unsafe { a.boxed(v) };
                assert!(&mut *r as *mut V == p && *r == v, "P08 boxed into the allocation");
                kani::cover!(true, "COVER allocation");
            }
            None => assert!(b.level() == before, "P08 nothing taken"),
        },
        _ => match b.get::<V>() {
            Some(a) => {
                let p = a.ptr.as_ptr();
                let r = unsafe { a.uninit() };
                assert!(r.as_mut_ptr() == p, "P08 uninitialized view of the allocation");
                assert!(*r.write(v) == v, "P08 value written to the allocation");
                kani::cover!(true, "COVER allocation");
            }
            None => assert!(b.level() == before, "P08 nothing taken"),
        },
    }
}

macro_rules! value_harness {
    ($($name:ident, $t:ty, $mem:ty, $mode:literal;)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() { value::<$t, $mem>($mode) }
    )*};
}
value_harness! {
    p08_leak_u8, u8, [u8; 24], 0;
    p08_leak_mixed, Mixed, [u8; 24], 0;
    p08_leak_over, Over, [u8; 72], 0;
    p08_leak_array, Three, [u8; 24], 0;
    p08_leak_zst, (), [u8; 24], 0;
    p08_box_u8, u8, [u8; 24], 1;
    p08_box_mixed, Mixed, [u8; 24], 1;
    p08_box_over, Over, [u8; 72], 1;
    p08_box_array, Three, [u8; 24], 1;
    p08_box_zst, (), [u8; 24], 1;
    p08_leak_over128, Over128, [u8; 300], 0;
    p08_box_over128, Over128, [u8; 300], 1;
    p08_allocation_over128, Over128, [u8; 300], 3;
    p08_allocation_leak, Mixed, [u8; 24], 2;
    p08_allocation_boxed, Mixed, [u8; 24], 3;
    p08_allocation_uninit, Mixed, [u8; 24], 4;
}

struct Counted<'a>(&'a Cell<u32>, u32);
impl Drop for Counted<'_> {
    fn drop(&mut self) {
        self.0.set(self.0.get() + 1);
    }
}

/// Values with a destructor: never dropped while leaked, once if the placement of a box fails.
fn drops(mode: u8) {
    let drops = Cell::new(0);
    let x: u32 = kani::any();
    {
        let b = &Bump::<[u8; 40]>::uninit();
        raise(b);
        let e: usize = kani::any();
        kani::assume(e <= 40);
        let level = level_of::<[u8; 40]>(e);
        match mode {
            0 => match b.leak(Counted(&drops, x)) {
                Ok(v) => {
                    assert!(v.1 == x && drops.get() == 0, "P08 leaked, not dropped");
                    kani::cover!(true, "COVER leak");
                }
                Err(e) => {
                    assert!(drops.get() == 0, "P08 failure does not drop");
                    let v = e.into_inner();
                    assert!(v.1 == x && drops.get() == 0, "P08 value returned");
                    mem::forget(v);
                    kani::cover!(true, "COVER refused");
                }
            },
            1 => match b.leak_at(Counted(&drops, x), level) {
                Ok((v, _)) => {
                    assert!(v.1 == x && drops.get() == 0, "P08 leaked, not dropped");
                    kani::cover!(true, "COVER leak");
                }
                Err(e) => {
                    let v = e.into_inner();
                    assert!(v.1 == x && drops.get() == 0, "P08 value returned");
                    mem::forget(v);
                    kani::cover!(true, "COVER refused");
                }
            },
            2 => match b.leak_box(Counted(&drops, x)) {
                Some(v) => {
                    assert!(v.1 == x && drops.get() == 0, "P08 boxed, not dropped");
                    mem::forget(v);
                    kani::cover!(true, "COVER box");
                }
                None => {
                    assert!(drops.get() == 1, "P08 the refused value is dropped once");
                    drops.set(0);
                    kani::cover!(true, "COVER refused");
                }
            },
            _ => match b.leak_box_at(Counted(&drops, x), level) {
                Ok(v) => {
                    assert!(v.1 == x && drops.get() == 0, "P08 boxed, not dropped");
                    mem::forget(v);
                    kani::cover!(true, "COVER box");
                }
                Err(_) => {
                    assert!(drops.get() == 1, "P08 the refused value is dropped once");
                    drops.set(0);
                    kani::cover!(true, "COVER refused");
                }
            },
        }
    }
    assert!(drops.get() == 0, "P08 dropping the allocator does not drop leaked values");
}
macro_rules! drops_harness {
    ($($name:ident, $mode:literal;)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() { drops($mode) }
    )*};
}
drops_harness! {
    p08_drops_leak, 0;
    p08_drops_leak_at, 1;
    p08_drops_box, 2;
    p08_drops_box_at, 3;
}

/// A value of no size has a destructor all the same.
#[kani::proof]
#[kani::unwind(4)]
fn p08_drops_no_size() {
    static mut DROPS: usize = 0;
    struct Empty;
    impl Drop for Empty {
        fn drop(&mut self) {
            unsafe { DROPS += 1 }
        }
    }
    let dropped = || unsafe { DROPS };
    let e: usize = kani::any();
    kani::assume(e <= 4);
    let level = level_of::<[u8; 4]>(e);
    let b = &Bump::<[u8; 4]>::uninit();
    raise(b);
    match kani::any::<u8>() {
        0 => match b.leak(Empty) {
            Ok(_) => (),
            Err(e) => mem::forget(e.into_inner()),
        },
        1 => match b.leak_at(Empty, level) {
            Ok(_) => (),
            Err(e) => {
                mem::forget(e.into_inner());
                kani::cover!(true, "COVER refused");
            }
        },
        2 => match b.leak_box(Empty) {
            Some(v) => mem::forget(v),
            None => {
                assert!(dropped() == 1, "P08 the refused value is dropped once");
                return;
            }
        },
        _ => match b.leak_box_at(Empty, level) {
            Ok(v) => mem::forget(v),
            Err(_) => {
                assert!(dropped() == 1, "P08 the refused value is dropped once");
                return;
            }
        },
    }
    assert!(dropped() == 0, "P08 a leaked or returned value is not dropped");
}
