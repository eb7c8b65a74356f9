//! P20: an owning box over given memory.
use crate::util::*;
use core::borrow::{Borrow, BorrowMut};
use core::mem;
use vcommon::*;
use without_alloc::boxed::Box;
use without_alloc::Uninit;

macro_rules! values {
    ($($name:ident: $t:ty, $kind:ident, $any:ident;)*) => {$(
        /// In any memory: any place, any length that is enough.
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let mut buf = $kind::new();
            let Ok(memory) = buf.$any().cast::<$t>() else { return };
            let whole = memory.extent();
            let (x, y, z): ($t, $t, $t) = (kani::any(), kani::any(), kani::any());
            let mut b = Box::new(x, memory);
            assert!(*b == x, "P20 shows the value");
            assert!(&*b as *const $t as usize == whole.0, "P20 where the memory is");
            assert!(aligned(whole.0, mem::align_of::<$t>()), "P20 aligned");
            assert!(*AsRef::<$t>::as_ref(&b) == x && *Borrow::<$t>::borrow(&b) == x, "P20 shows the value");
            *b = y;
            assert!(*b == y, "P20 writable");
            *AsMut::<$t>::as_mut(&mut b) = z;
            assert!(*b == z, "P20 writable");
            *BorrowMut::<$t>::borrow_mut(&mut b) = x;
            let raw = Box::into_raw(b);
            assert!(raw.extent() == whole, "P20 all of the memory comes back");
            let mut b = unsafe { Box::from_raw(raw) };
            assert!(*b == x && &mut *b as *mut $t as usize == whole.0, "P20 same value in the same place");
            if kani::any() {
                let (val, raw) = Box::take(b);
                assert!(val == x, "P20 the value is taken out");
                assert!(raw.extent() == whole, "P20 all of the memory comes back");
                // The memory is good for another value.
                let b = Box::new(y, raw);
                assert!(*b == y, "P20 memory is reusable");
            } else {
                let r = Box::leak(b);
                assert!(*r == x && r as *mut $t as usize == whole.0, "P20 leaked in place");
                *r = z;
                assert!(*r == z, "P20 leaked is writable");
                kani::cover!(whole.1 > mem::size_of::<$t>(), "COVER more memory than needed");
            }
        }
    )*};
}
type Small = Buffer<40>;
type Wider = Buffer<290>;
values! {
    p20_value_u8: u8, Memory, any;
    p20_value_u32: u32, Small, any;
    p20_value_three: Three, Small, any;
    p20_value_mixed: Mixed, Small, any;
    p20_value_u128: u128, Small, any;
    p20_value_unit: (), Memory, any;
    p20_long_u32: u32, Memory, any_length;
    p20_long_mixed: Mixed, Memory, any_length;
    p20_value_wide: Wide, Wider, any;
    p20_long_u128: u128, Memory, any_length;
}

/// Each way in with each way out: how often is the value dropped?
#[kani::proof]
#[kani::unwind(4)]
fn p20_drops() {
    let drops = &Drops::new();
    let mut memory = Buffer::<4>::new();
    let memory = memory.part(0, 4).cast::<Tracked>().unwrap();
    let i: usize = kani::any();
    kani::assume(i < 8);
    let of = |k: usize| drops.of(k) as usize;
    let mut b = Box::new(drops.make(1), memory);
    if kani::any() {
        b = unsafe { Box::from_raw(Box::into_raw(b)) };
    }
    assert!(of(1) == 0, "P20 not dropped while owned");
    match kani::any::<u8>() {
        0 => {
            drop(b);
            assert!(of(1) == 1, "P20 dropped once with the box");
        }
        1 => {
            *b = drops.make(2);
            assert!(of(1) == 1 && of(2) == 0, "P20 the replaced value is dropped");
            drop(b);
            assert!(of(1) == 1 && of(2) == 1, "P20 dropped once with the box");
        }
        2 => {
            let (val, rest) = Box::take(b);
            assert!(of(1) == 0 && val.1 == 1, "P20 a taken value is not dropped");
            drop(rest);
            assert!(of(1) == 0, "P20 a taken value is not dropped");
            drop(val);
            assert!(of(1) == 1, "P20 a taken value is owned by the caller");
        }
        3 => {
            let r = Box::leak(b);
            assert!(of(1) == 0 && r.1 == 1, "P20 a leaked value is not dropped");
        }
        4 => {
            let raw = Box::into_raw(b);
            assert!(of(1) == 0, "P20 raw memory is not dropped");
            let mut raw = raw;
            let r = unsafe { raw.borrow_mut().into_mut() };
            assert!(r.1 == 1, "P20 the value stays in the memory");
            kani::cover!(true, "COVER");
        }
        _ => {
            let x = mem::replace(&mut *b, drops.make(3));
            assert!(of(1) == 0 && of(3) == 0, "P20 no drop by replacement");
            drop(b);
            assert!(of(1) == 0 && of(3) == 1, "P20 dropped once with the box");
            drop(x);
            assert!(of(1) == 1 && of(3) == 1, "P20 each dropped once");
        }
    }
    assert!(drops.of(i) <= 1, "P20 never dropped twice");
}

/// Slices: every element is dropped once.
#[kani::proof]
#[kani::unwind(5)]
fn p20_slice() {
    let drops = &Drops::new();
    let mut memory = Buffer::<3>::new();
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let start = memory.0.as_ptr() as usize;
    let mut raw = memory.part(0, n).cast_slice::<Tracked>().unwrap();
    for i in 0..3 {
        if i < n {
            unsafe { (raw.as_begin_ptr()).add(i).write(drops.make(i)) };
        }
    }
    assert!(raw.borrow().capacity() == n, "P20 slice");
    let mut b = unsafe { Box::from_raw(raw) };
    assert!(b.len() == n && b.as_ptr() as usize == start, "P20 slice length and place");
    let i: usize = kani::any();
    kani::assume(i < n);
    assert!(b[i].1 as usize == i && drops.of(i) == 0, "P20 shows the elements");
    match kani::any::<u8>() {
        0 => {
            drop(b);
            assert!(drops.of(i) == 1, "P20 each element is dropped once");
            kani::cover!(n == 3, "COVER");
        }
        1 => {
            b[i].1 = 7;
            let r = Box::leak(b);
            assert!(r.len() == n && r[i].1 == 7, "P20 leaked slice");
            assert!(drops.of(i) == 0 && drops.of(7) == 0, "P20 a leaked value is not dropped");
        }
        _ => {
            let raw = Box::into_raw(b);
            assert!(raw.capacity() == n && raw.extent() == Extent(start, n), "P20 all of the memory comes back");
            let b = unsafe { Box::from_raw(raw) };
            assert!(b.len() == n && b[i].1 as usize == i, "P20 same slice");
            drop(b);
            assert!(drops.of(i) == 1, "P20 each element is dropped once");
        }
    }
}

/// Values of no size.
#[kani::proof]
#[kani::unwind(4)]
fn p20_zero_sized() {
    let b = Box::new(ZstTracked, Uninit::invent_for_zst());
    assert!(unsafe { ZST_DROPS } == 0, "P20 not dropped while owned");
    if kani::any() {
        drop(b);
        assert!(unsafe { ZST_DROPS } == 1, "P20 dropped once");
    } else {
        let (val, _) = Box::take(b);
        assert!(unsafe { ZST_DROPS } == 0, "P20 a taken value is not dropped");
        drop(val);
        assert!(unsafe { ZST_DROPS } == 1, "P20 dropped once");
    }
    let b = Box::new(ZstOver, Uninit::invent_for_zst());
    assert!(aligned(&*b as *const ZstOver as usize, 8), "P20 aligned");
    kani::cover!(true, "COVER");
}

/// Comparisons and hashes are those of the values.
#[kani::proof]
#[kani::unwind(6)]
fn p20_comparisons() {
    let (mut m1, mut m2) = (Buffer::<4>::new(), Buffer::<4>::new());
    let (mut m3, mut m4) = (Buffer::<4>::new(), Buffer::<4>::new());
    let (x, y): (Odd, Odd) = (kani::any(), kani::any());
    let a = Box::new(x, m1.part(0, 4).cast().unwrap());
    let b = Box::new(y, m2.part(0, 4).cast().unwrap());
    assert!((a == b) == (x == y) && (a != b) == (x != y), "P20 equality of the values");
    assert!((a < b) == (x < y) && (a <= b) == (x <= y), "P20 order of the values");
    assert!((a > b) == (x > y) && (a >= b) == (x >= y), "P20 order of the values");
    assert!(a.partial_cmp(&b) == x.partial_cmp(&y), "P20 order of the values");
    assert!(hash(&a) == hash(&x), "P20 hash of the value");
    assert!((a == a) == (x == x) && (a != a) == (x != x), "P20 equality of the values");
    assert!(a.partial_cmp(&a) == x.partial_cmp(&x), "P20 order of the values");
    assert!((a <= a) == (x <= x) && (a >= a) == (x >= x) && !(a < a) && !(a > a), "P20 order of the values");
    // Boxes of values without size may be in the same place.
    let (e, f) = (Box::new(Never, Uninit::invent_for_zst()), Box::new(Never, Uninit::invent_for_zst()));
    assert!(!(e == f) && e != f && e.partial_cmp(&f).is_none(), "P20 equality of the values");
    let c = Box::new(x.0, m3.part(0, 1).cast().unwrap());
    let d = Box::new(y.0, m4.part(3, 1).cast().unwrap());
    assert!(c.cmp(&d) == x.0.cmp(&y.0), "P20 order of the values");
    kani::cover!(x > y, "COVER");
}
