//! P24: pinned values stay where they are, in memory of their own.
use crate::util::*;
use core::mem;
use vcommon::*;

macro_rules! places {
    ($($name:ident: $m:ty | $a:ty, $b:ty;)*) => {$(
        #[kani::proof]
        #[kani::unwind(5)]
        fn $name() {
            let mut place = Place::<$m>::new();
            let (lo, len) = place.range();
            let (x, y, z): (u64, u64, u64) = (kani::any(), kani::any(), kani::any());
            let mut n = 0;
            {
                let stack = place.stack();
                let a = stack.slot::<$a>();
                let b = stack.slot::<$b>();
                let first: bool = kani::any();
                let mut p = None;
                let mut q = None;
                if first {
                    if let Some(a) = a { p = Some(a.pin(<$a>::make(1, x))); n += 1; }
                    if let Some(b) = b { q = Some(b.pin(<$b>::make(2, y))); n += 1; }
                } else {
                    if let Some(b) = b { q = Some(b.pin(<$b>::make(2, y))); n += 1; }
                    if let Some(a) = a { p = Some(a.pin(<$a>::make(1, x))); n += 1; }
                }
                // Something else is pinned or prepared while references to these exist.
                if kani::any() {
                    if let Some(c) = stack.slot::<Small>() {
                        pinned(c.pin(Small::make(3, 0)), 3, 0);
                        n += 1;
                    }
                }
                // Still all as it was.
                let p = p.map(|p| pinned(p, 1, x));
                let q = q.map(|q| pinned(q, 2, y));
                for (r, align) in [(p, mem::align_of::<$a>()), (q, mem::align_of::<$b>())] {
                    if let Some((at, size)) = r {
                        assert!(size == 0 || inside(at, size, lo, len), "P24 in memory of the stack");
                        assert!(aligned(at, align), "P24 aligned");
                    }
                }
                if let (Some((p, s)), Some((q, t))) = (p, q) {
                    assert!(s == 0 || t == 0 || p + s <= q || q + t <= p, "P24 apart from each other");
                    kani::cover!(true, "COVER");
                }
            }
            place.stack_mut().pop_all();
            assert!(unsafe { COUNT } == n, "P24 dropped with the stack");
            assert!(!unsafe { MOVED }, "P24 dropped where it was pinned");
            assert!(!unsafe { CHANGED }, "P24 content is unchanged until dropped");
            // All of the memory is available again, for a value of its type.
            let s = place.stack().slot::<$m>();
            assert!(s.is_some(), "P24 room for a value after dropping all");
            let _ = z;
            drop(s);
            place.end();
            assert!(unsafe { COUNT } == n && !unsafe { MOVED }, "P24 dropped once");
        }
    )*};
}
places! {
    p24_small: [u8; 60] | Small, Small;
    p24_mixed: [u64; 16] | Wide, Small;
    p24_over: [u64; 20] | Over, Wide;
    p24_tight: [u64; 7] | Small, Wide;
    p24_zst: [u64; 16] | Nothing, Over;
    p24_odd: [u8; 77] | Small, Over;
}

macro_rules! rooms {
    ($($name:ident: $m:ty, $v:expr;)*) => {$(
        /// There is always room for one value of the type that gives the memory, also again and again.
        #[kani::proof]
        #[kani::unwind(5)]
        fn $name() {
            let mut place = Place::<$m>::new();
            let (lo, len) = place.range();
            {
                assert!(place.stack().slot::<$m>().is_some(), "P24 room for a value");
            }
            let mut at = [0; 2];
            for i in 0..2 {
                let p = place.stack_mut().set($v);
                at[i] = &*p as *const $m as usize;
                assert!(mem::size_of::<$m>() == 0 || inside(at[i], mem::size_of::<$m>(), lo, len), "P24 in memory of the stack");
                assert!(aligned(at[i], mem::align_of::<$m>()), "P24 aligned");
            }
            place.end();
            kani::cover!(true, "COVER");
        }
    )*};
}
#[repr(align(16))]
pub struct Wider([u8; 16]);
rooms! {
    p24_room_u8: u8, kani::any();
    p24_room_three: [u8; 3], [1, 2, 3];
    p24_room_word: usize, kani::any();
    p24_room_over: Wider, Wider([3; 16]);
    p24_room_unit: (), ();
}
