//! P25, P26: longer fills than those with symbolic extent, on fixed numbers of items (bounded).
use alloc::collections::VecDeque;
use alloc::vec::Vec;
use fill::Fill;

const ROOM: usize = 18;

/// Every way of filling with fewer and more items than there is room for.
fn ways<F: Fill<u8>>(mut empty: impl FnMut() -> F, check: impl Fn(&F, usize)) {
    for &items in &[ROOM - 1, ROOM + 2] {
        let stored = if items < ROOM { items } else { ROOM };
        let mut pulled = 0;
        let mut f = empty();
        f.fill((0..items as u8).inspect(|_| pulled += 1));
        check(&f, stored);
        assert!(pulled == stored, "P25 takes what is stored and no more");
        core::mem::forget(f);
        let mut f = empty();
        let tail = f.fill_and_keep_tail(0..items as u8);
        check(&f, stored);
        assert!(tail.start as usize == stored && tail.end as usize == items, "P26 the tail goes on where filling stopped");
        core::mem::forget(f);
        let mut f = empty();
        assert!(f.fill_count(0..items as u8) == stored, "P26 counts the items");
        check(&f, stored);
        core::mem::forget(f);
        let mut f = empty();
        assert!(f.checked_fill(0..items as u8).is_some() == (items >= ROOM), "P26 says whether it was filled");
        check(&f, stored);
        core::mem::forget(f);
    }
}

fn any_history_vec() {
    ways(
        || Vec::with_capacity(ROOM),
        |v: &Vec<u8>, n| {
            assert!(v.len() == n && v.capacity() == ROOM, "P26 all that fit are stored, P25 without growing");
            for i in 0..n {
                assert!(v[i] == i as u8, "P26 in order");
            }
        },
    )
}
fn any_history_queue() {
    ways(
        || {
            let mut v = VecDeque::with_capacity(ROOM);
            for _ in 0..5 {
                v.push_back(1);
                v.pop_front();
            }
            v
        },
        |v: &VecDeque<u8>, n| {
            assert!(v.len() == n && v.capacity() == ROOM, "P26 all that fit are stored, P25 without growing");
            for i in 0..n {
                assert!(v[i] == i as u8, "P26 in order");
            }
        },
    )
}
fn any_history_slice() {
    for &items in &[ROOM - 1, ROOM + 2] {
        let stored = if items < ROOM { items } else { ROOM };
        let mut a = [200u8; ROOM];
        let mut it = a.iter_mut();
        let tail = it.fill_and_keep_tail(0..items as u8);
        assert!(tail.start as usize == stored, "P26 the tail goes on where filling stopped");
        assert!(it.len() == ROOM - stored, "P26 advances behind what was written");
        for i in 0..ROOM {
            assert!(a[i] == if i < stored { i as u8 } else { 200 }, "P26 written from the front");
        }
    }
}

macro_rules! harness {
    ($($f:ident: $a:ident, $b:ident;)*) => {$(
        #[kani::proof]
        #[kani::unwind(22)]
        fn $a() { $f() }
        #[kani::proof]
        #[kani::unwind(22)]
        fn $b() { $f() }
    )*};
}
harness! {
    any_history_vec: p25_long_vec_bounded, p26_long_vec_bounded;
    any_history_queue: p25_long_queue_bounded, p26_long_queue_bounded;
    any_history_slice: p25_long_slice_bounded, p26_long_slice_bounded;
}
