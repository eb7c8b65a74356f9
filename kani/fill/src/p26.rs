//! P26: filled items are in order behind the old ones; counts, tails and checks tell the truth.
use crate::util::*;
use alloc::collections::VecDeque;
use alloc::vec::Vec;
use fill::Fill;

const MOST: u8 = 4;

/// The four ways to fill.
#[derive(Clone, Copy, PartialEq)]
enum Way { Fill, Tail, Count, Checked }
use Way::*;

/// What a filled container must report, given the items the source had and the room there was.
fn fill<F: Fill<u8>>(way: Way, into: &mut F, room: u8) -> u8 {
    let count = Counts::default();
    let source = Source::any(&count, MOST);
    let left = source.left;
    let stored = min(left, room);
    match way {
        Fill => into.fill(source),
        Tail => {
            let tail = into.fill_and_keep_tail(source);
            assert!(tail.left == left - stored && tail.at == stored, "P26 the tail goes on where filling stopped");
        }
        Count => {
            let n = into.fill_count(source);
            assert!(n == stored as usize, "P26 counts the items");
        }
        Checked => {
            match into.checked_fill(source) {
                Some(tail) => {
                    assert!(left >= room, "P26 says whether it was filled");
                    assert!(tail.left == left - stored && tail.at == stored, "P26 the tail goes on where filling stopped");
                }
                None => {
                    assert!(left < room, "P26 says whether it was filled");
                }
            }
        }
    }
    stored
}

macro_rules! collections {
    ($($way:ident: $vec:ident, $queue:ident, $slice:ident, $option:ident;)*) => {$(
        #[kani::proof]
        #[kani::unwind(7)]
        fn $vec() {
            let mut v = Vec::<u8>::with_capacity(3);
            let used: usize = kani::any();
            kani::assume(used <= 3 && v.capacity() == 3);
            for i in 0..3 {
                if i < used { v.push(100 + i as u8); }
            }
            let stored = fill($way, &mut v, 3 - used as u8);
            assert!(v.len() == used + stored as usize, "P26 all that fit are stored");
            let i: usize = kani::any();
            kani::assume(i < v.len());
            assert!(v[i] == if i < used { 100 + i as u8 } else { (i - used) as u8 }, "P26 in order behind the old ones");
            kani::cover!(used == 1 && stored == 2, "COVER");
            core::mem::forget(v);
        }
        #[kani::proof]
        #[kani::unwind(7)]
        fn $queue() {
            // One item, in the middle of the memory so that more wrap around its end.
            let mut v = VecDeque::<u8>::with_capacity(3);
            kani::assume(v.capacity() == 3);
            v.push_back(1);
            let _ = v.pop_front();
            v.push_back(100);
            let stored = fill($way, &mut v, 2);
            assert!(v.len() == 1 + stored as usize, "P26 all that fit are stored");
            let i: usize = kani::any();
            kani::assume(i < v.len());
            assert!(v[i] == if i == 0 { 100 } else { i as u8 - 1 }, "P26 in order behind the old ones");
            kani::cover!(stored == 2, "COVER");
            core::mem::forget(v);
        }
        #[kani::proof]
        #[kani::unwind(7)]
        fn $slice() {
            let mut mem = [90u8, 91, 92];
            let room: usize = kani::any();
            kani::assume(room <= 3);
            let mut iter = mem[..room].iter_mut();
            let stored = fill($way, &mut iter, room as u8);
            assert!(iter.len() == room - stored as usize, "P26 advanced behind what is stored");
            let i: usize = kani::any();
            kani::assume(i < 3);
            assert!(mem[i] == if i < stored as usize { i as u8 } else { 90 + i as u8 }, "P26 in order, the rest unchanged");
            kani::cover!(room == 3 && stored == 2, "COVER");
        }
        #[kani::proof]
        #[kani::unwind(7)]
        fn $option() {
            let old: Option<u8> = kani::any();
            let mut slot = old;
            let stored = fill($way, &mut slot, old.is_none() as u8);
            if old.is_some() {
                assert!(slot == old, "P26 old content stays");
            } else {
                assert!(slot == if stored == 1 { Some(0) } else { None }, "P26 the first item is stored");
            }
            kani::cover!(stored == 1, "COVER");
        }
    )*};
}
collections! {
    Fill: p26_fill_vec, p26_fill_queue, p26_fill_slice, p26_fill_option;
    Tail: p26_tail_vec, p26_tail_queue, p26_tail_slice, p26_tail_option;
    Count: p26_count_vec, p26_count_queue, p26_count_slice, p26_count_option;
    Checked: p26_checked_vec, p26_checked_queue, p26_checked_slice, p26_checked_option;
}

/// Swapping exchanges the items one by one.
#[kani::proof]
#[kani::unwind(7)]
fn p26_swap() {
    let mut mem = [90u8, 91, 92];
    let mut other = [0u8, 1, 2, 3];
    let (room, n): (usize, usize) = (kani::any(), kani::any());
    kani::assume(room <= 3 && n <= 4);
    Fill::<&mut u8>::fill(&mut mem[..room].iter_mut(), other[..n].iter_mut());
    let stored = if n < room { n } else { room };
    let i: usize = kani::any();
    if i < 3 {
        assert!(mem[i] == if i < stored { i as u8 } else { 90 + i as u8 }, "P26 in order, the rest unchanged");
    }
    if i < 4 {
        assert!(other[i] == if i < stored { 90 + i as u8 } else { i as u8 }, "P26 in order, the rest unchanged");
    }
    kani::cover!(room == 2 && n == 4, "COVER");
}

/// A failure replaces the container, and the items in front of it were stored.
#[kani::proof]
#[kani::unwind(7)]
fn p26_result() {
    let mut mem = [90u8, 91, 92];
    let count = Counts::default();
    let source = Source::any(&count, MOST);
    let left = source.left;
    let fails: u8 = kani::any();
    let failed;
    {
        let mut into: Result<_, u8> = Ok(mem.iter_mut());
        into.fill(source.map(|x| if x == fails { Err(x) } else { Ok(x) }));
        failed = into.as_ref().err().copied();
        if let Ok(rest) = &into {
            assert!(rest.len() == 3 - min(left, 3) as usize, "P26 advanced behind what is stored");
        }
    }
    assert!(failed == if fails < left && fails < 3 { Some(fails) } else { None }, "P26 the first failure is reported");
    let stored = min(min(left, fails), 3) as usize;
    let i: usize = kani::any();
    kani::assume(i < 3);
    assert!(mem[i] == if i < stored { i as u8 } else { 90 + i as u8 }, "P26 in order, the rest unchanged");
    kani::cover!(failed == Some(2), "COVER");
}

/// Values with a destructor: the ones stored live, the old ones in a slice are dropped when replaced.
#[kani::proof]
#[kani::unwind(7)]
fn p26_drops() {
    static mut DROPS: [u8; 8] = [0; 8];
    struct D(u8);
    impl Drop for D {
        fn drop(&mut self) {
            unsafe { DROPS[self.0 as usize & 7] += 1 }
        }
    }
    let mut mem = [D(5), D(6)];
    let n: u8 = kani::any();
    kani::assume(n <= 3);
    mem.iter_mut().fill((0..n).map(D));
    let i: usize = kani::any();
    kani::assume(i < 8);
    let drops = |i: usize| unsafe { DROPS[i] };
    assert!(drops(i) == (i == 5 && n > 0 || i == 6 && n > 1) as u8, "P26 exactly the replaced are dropped");
    drop(mem);
    assert!(drops(i) == (i == 5 || i == 6 || i < min(n, 2) as usize) as u8, "P26 each is dropped once");
    kani::cover!(n == 3, "COVER");
}
