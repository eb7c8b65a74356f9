//! Dropping any number of elements, by the invariant of the loop.
use crate::util::*;
use vcommon::*;
use without_alloc::fixed_vec::contracts::{DROPS, WATCHED};
use without_alloc::FixedVec;

static mut PLACE: usize = 0;

/// An element that notices whether it is the one that is watched.
struct Watched<T>(#[allow(dead_code)] T);

impl<T> Drop for Watched<T> {
    fn drop(&mut self) {
        unsafe { DROPS += (self as *const Self as usize == PLACE) as usize }
    }
}

/// A vector with any number of elements, of which any is watched.
fn any_vec<T>(m: &mut Memory, f: impl FnOnce(FixedVec<Watched<T>>, usize, usize)) {
    let u = m.any_length().cast_slice::<Watched<T>>();
    kani::assume(u.is_ok());
    let mut v = FixedVec::new(u.ok().unwrap());
    let n: usize = kani::any();
    kani::assume(n <= v.capacity());
    unsafe { v.set_len(n) };
    let i: usize = kani::any();
    kani::assume(i < n);
    unsafe {
        DROPS = 0;
        WATCHED = i;
        PLACE = v.as_slice().as_ptr() as usize + i * core::mem::size_of::<T>();
    }
    f(v, n, i);
}

macro_rules! drops {
    ($($truncate:ident, $clear:ident: $t:ty;)*) => {$(
        #[kani::proof]
        fn $truncate() {
            any_vec::<$t>(&mut Memory::new(), |mut v, n, i| {
                let k: usize = kani::any();
                kani::assume(k <= n);
                v.truncate(k);
                assert!(v.len() == k, "P17 truncated to the length");
                assert!(unsafe { DROPS } == (i >= k) as usize, "P17 exactly the elements behind it are dropped, once");
                kani::cover!(n > 1000 && k < 5 && i > k, "COVER");
                core::mem::forget(v);
            });
        }
        #[kani::proof]
        fn $clear() {
            any_vec::<$t>(&mut Memory::new(), |mut v, n, _| {
                v.clear();
                assert!(v.len() == 0 && unsafe { DROPS } == 1, "P17 every element is dropped once");
                kani::cover!(n > 1000, "COVER");
                core::mem::forget(v);
            });
        }
    )*};
}
drops! {
    p17_truncate_byte, p17_clear_byte: u8;
    p17_truncate_mixed, p17_clear_mixed: Mixed;
}
