//! P09: a box over allocator memory owns its value: it is dropped exactly once, by the box or by
//! whoever it was handed on to, and never touched otherwise.
use crate::util::*;
use core::cell::Cell;
use core::mem::{self, ManuallyDrop, MaybeUninit};
use static_alloc::leaked::LeakBox;
use static_alloc::Bump;

struct Counted<'a>(&'a Cell<u32>, u32);
impl Drop for Counted<'_> {
    fn drop(&mut self) {
        self.0.set(self.0.get() + 1);
    }
}

/// Make a box by any of the constructors, and end it by any of the ways.
fn through<'a>(b: LeakBox<'a, Counted<'a>>, drops: &'a Cell<u32>, x: u32) {
    let addr = &*b as *const Counted as usize;
    assert!(b.1 == x && drops.get() == 0, "P09 holds the value");
    match kani::any::<u8>() {
        0 => {
            drop(b);
            assert!(drops.get() == 1, "P09 dropped with the box");
        }
        1 => {
            let r: &mut Counted = LeakBox::leak(b);
            assert!(r as *mut _ as usize == addr, "P09 leak gives the place");
            assert!(r.1 == x && drops.get() == 0, "P09 a leaked value is not dropped");
            drops.set(1);
        }
        2 => {
            let v = LeakBox::take(b);
            assert!(v.1 == x && drops.get() == 0, "P09 a taken value is not dropped");
            drop(v);
            assert!(drops.get() == 1, "P09 and dropped by its new owner");
        }
        3 => {
            let p = LeakBox::into_raw(b);
            assert!(p as usize == addr, "P09 raw pointer to the place");
            assert!(drops.get() == 0, "P09 raw does not drop");
            let b: LeakBox<Counted> = unsafe { LeakBox::from_raw(p) };
            assert!(b.1 == x && drops.get() == 0, "P09 round trip through raw");
            drop(b);
            assert!(drops.get() == 1, "P09 dropped with the box");
        }
        4 => {
            let p = LeakBox::into_raw(b);
            let b: LeakBox<Counted> = unsafe { LeakBox::from_mut_unchecked(&mut *p) };
            assert!(b.1 == x && drops.get() == 0, "P09 wrapped reference");
            drop(b);
            assert!(drops.get() == 1, "P09 dropped with the box");
        }
        5 => {
            let b: LeakBox<dyn core::any::Any> = {
                let p = LeakBox::into_raw(b) as *mut ();
                let p = p as *mut Counted<'static>;
                unsafe { LeakBox::from_raw(p as *mut dyn core::any::Any) }
            };
            assert!(drops.get() == 0, "P09 unsized, not dropped");
            drop(b);
            assert!(drops.get() == 1, "P09 unsized dropped with the box");
        }
        _ => {
            mem::forget(b);
            assert!(drops.get() == 0, "P09 a forgotten box never drops");
            drops.set(1);
        }
    }
    assert!(drops.get() == 1, "P09 exactly once");
    kani::cover!(true, "COVER ended");
}

#[kani::proof]
#[kani::unwind(4)]
fn p09_from_allocator() {
    let drops = Cell::new(0);
    let x: u32 = kani::any();
    let bump = Bump::<[u8; 40]>::uninit();
    raise(&bump);
    if let Some(b) = bump.leak_box(Counted(&drops, x)) {
        through(b, &drops, x);
    } else {
        assert!(drops.get() == 1, "P09 a refused value is dropped once");
    };
}

#[kani::proof]
#[kani::unwind(4)]
fn p09_from_write() {
    let drops = Cell::new(0);
    let x: u32 = kani::any();
    let mut place = MaybeUninit::uninit();
    let b: LeakBox<MaybeUninit<Counted>> = (&mut place).into();
    let b = LeakBox::write(b, Counted(&drops, x));
    through(b, &drops, x);
}

/// Writing replaces uninitialized content, it must not drop any.
#[kani::proof]
#[kani::unwind(4)]
fn p09_write_does_not_drop() {
    let drops = Cell::new(0);
    let x: u32 = kani::any();
    let mut place = MaybeUninit::new(Counted(&drops, 7));
    let b: LeakBox<MaybeUninit<Counted>> = (&mut place).into();
    let b = if kani::any() {
        LeakBox::write(b, Counted(&drops, x))
    } else {
        let mut b = unsafe { LeakBox::assume_init(b) };
        b.1 = x;
        b
    };
    assert!(drops.get() == 0, "P09 uninitialized content is not dropped");
    assert!(b.1 == x, "P09 value written");
    drop(b);
    assert!(drops.get() == 1, "P09 dropped with the box");
    kani::cover!(true, "COVER written");
}

#[kani::proof]
#[kani::unwind(4)]
fn p09_uninit_box_does_not_drop() {
    let drops = Cell::new(0);
    let mut place = MaybeUninit::new(Counted(&drops, 7));
    let b: LeakBox<MaybeUninit<Counted>> = (&mut place).into();
    drop(b);
    let mut slice = [MaybeUninit::new(Counted(&drops, 7)), MaybeUninit::new(Counted(&drops, 8))];
    let b: LeakBox<[MaybeUninit<Counted>]> = (&mut slice[..]).into();
    assert!(b.len() == 2, "P09 slice length");
    drop(b);
    assert!(drops.get() == 0, "P09 uninitialized content is not dropped");
    kani::cover!(true, "COVER done");
}

/// A box of a slice drops every element once.
#[kani::proof]
#[kani::unwind(5)]
fn p09_slice() {
    let drops = Cell::new(0);
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let mut vals = ManuallyDrop::new([Counted(&drops, 0), Counted(&drops, 1), Counted(&drops, 2)]);
    let b: LeakBox<[Counted]> = unsafe { LeakBox::from_mut_unchecked(&mut vals[..n]) };
    assert!(b.len() == n);
    drop(b);
    assert!(drops.get() == n as u32, "P09 each element dropped once");
    kani::cover!(n == 3, "COVER three");
}

#[kani::proof]
fn p09_copy_and_static() {
    let x: u64 = kani::any();
    let y: u64 = kani::any();
    let mut v = x;
    {
        let mut b = LeakBox::from_mut(&mut v);
        assert!(*b == x, "P09 wrapped value");
        *b = y;
        assert!(*b.as_ref() == y && *b.as_mut() == y, "P09 views agree");
    }
    assert!(v == y, "P09 written through");
    kani::cover!(true, "COVER done");
}

/// Pinning does not move the value.
#[kani::proof]
#[kani::unwind(4)]
fn p09_into_pin() {
    static POOL: Bump<[u64; 2]> = Bump::uninit();
    let x: u64 = kani::any();
    raise(&POOL);
    if let Some(b) = POOL.leak_box(x) {
        let addr = &*b as *const u64;
        let pinned = LeakBox::into_pin(b);
        assert!(&*pinned as *const u64 == addr && *pinned == x, "P09 pinned in place");
        kani::cover!(true, "COVER pinned");
    }
}

/// A value of no size has a destructor all the same.
static mut EMPTY_DROPS: usize = 0;
struct Empty;
impl Drop for Empty {
    fn drop(&mut self) {
        unsafe { EMPTY_DROPS += 1 }
    }
}

#[kani::proof]
#[kani::unwind(4)]
fn p09_no_size() {
    let count = || unsafe { EMPTY_DROPS };
    let bump = Bump::<[u8; 4]>::uninit();
    raise(&bump);
    let mut place = MaybeUninit::uninit();
    let b: LeakBox<Empty> = if kani::any() {
        let Some(b) = bump.leak_box(Empty) else { return };
        b
    } else {
        let b: LeakBox<MaybeUninit<Empty>> = (&mut place).into();
        LeakBox::write(b, Empty)
    };
    assert!(count() == 0, "P09 holds the value");
    match kani::any::<u8>() {
        0 => {
            drop(b);
            assert!(count() == 1, "P09 dropped with the box");
        }
        1 => {
            let _: &mut Empty = LeakBox::leak(b);
            assert!(count() == 0, "P09 a leaked value is not dropped");
        }
        2 => {
            let v = LeakBox::take(b);
            assert!(count() == 0, "P09 a taken value is not dropped");
            drop(v);
            assert!(count() == 1, "P09 and dropped by its new owner");
        }
        3 => {
            let p = LeakBox::into_raw(b);
            assert!(count() == 0, "P09 raw does not drop");
            drop(unsafe { LeakBox::<Empty>::from_raw(p) });
            assert!(count() == 1, "P09 dropped with the box");
        }
        4 => {
            let p = LeakBox::into_raw(b);
            drop(unsafe { LeakBox::<dyn core::any::Any>::from_raw(p as *mut dyn core::any::Any) });
            assert!(count() == 1, "P09 unsized dropped with the box");
            kani::cover!(true, "COVER unsized");
        }
        _ => {
            mem::forget(b);
            assert!(count() == 0, "P09 a forgotten box never drops");
        }
    }
}

#[kani::proof]
#[kani::unwind(5)]
fn p09_no_size_slice() {
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let mut vals = ManuallyDrop::new([Empty, Empty, Empty]);
    let b: LeakBox<[Empty]> = unsafe { LeakBox::from_mut_unchecked(&mut vals[..n]) };
    assert!(b.len() == n);
    drop(b);
    assert!(unsafe { EMPTY_DROPS } == n, "P09 each element dropped once");
    kani::cover!(n == 3, "COVER three");
}
