//! P25: filling takes from the source no more than is stored, and never beyond the capacity.
use crate::util::*;
use alloc::collections::VecDeque;
use alloc::vec::Vec;
use fill::Fill;

const MOST: u8 = 4;

/// The source was asked only for items that were stored, and at most once in vain.
fn thrifty(count: &Counts, stored: u8, room: u8) {
    assert!(count.given.get() == stored, "P25 every item taken is stored");
    assert!(stored <= room, "P25 no more than there is room for");
    assert!(!count.late.get(), "P25 not asked again after its end");
    if stored == room {
        assert!(count.asked.get() == stored, "P25 a full container does not ask");
    } else {
        assert!(count.asked.get() == stored + 1 && count.ended(), "P25 filled unless the source ends");
    }
}

macro_rules! collections {
    ($($name:ident, $make:expr, $cap:expr, |$c:ident, $x:ident| $push:expr;)*) => {$(
        #[kani::proof]
        #[kani::unwind(7)]
        fn $name() {
            let mut $c = $make;
            let cap = $c.capacity();
            assert!(cap >= $cap);
            let used: usize = kani::any();
            kani::assume(used <= cap);
            for i in 0..$cap {
                if i < used {
                    let $x = 100 + i as u8;
                    $push;
                }
            }
            kani::assume($c.len() == used);
            let count = Counts::default();
            let room = (cap - used) as u8;
            let source = Source::any(&count, MOST);
            let left = source.left;
            let tail = $c.fill_and_keep_tail(source);
            assert!($c.capacity() == cap, "P25 never grows");
            thrifty(&count, ($c.len() - used) as u8, room);
            assert!(tail.left == left - count.given.get(), "P25 the tail has all the rest");
            assert!($c.len() - used == min(left, room) as usize, "P25 filled unless the source ends");
            kani::cover!(left > room && room > 0, "COVER more than there is room for");
            kani::cover!(left < room, "COVER less than there is room for");
            core::mem::forget($c);
        }
    )*};
}
collections! {
    p25_vec, Vec::<u8>::with_capacity(2), 2, |c, x| c.push(x);
    p25_queue, VecDeque::<u8>::with_capacity(2), 2, |c, x| c.push_back(x);
}

/// A queue whose content wraps around the end of its memory.
#[kani::proof]
#[kani::unwind(7)]
fn p25_queue_wrapped() {
    let mut c = VecDeque::<u8>::with_capacity(3);
    let cap = c.capacity();
    c.push_back(1);
    c.push_back(2);
    let _ = c.pop_front();
    let _ = c.pop_front();
    c.push_back(100);
    let count = Counts::default();
    let source = Source::any(&count, MOST);
    let left = source.left;
    let _ = c.fill_and_keep_tail(source);
    assert!(c.capacity() == cap, "P25 never grows");
    thrifty(&count, c.len() as u8 - 1, cap as u8 - 1);
    let i: usize = kani::any();
    kani::assume(i < c.len());
    assert!(c[i] == if i == 0 { 100 } else { i as u8 - 1 }, "P25 every item taken is stored");
    kani::cover!(left > 3, "COVER");
    core::mem::forget(c);
}

#[kani::proof]
#[kani::unwind(7)]
fn p25_option() {
    let mut slot: Option<u8> = kani::any();
    let room = slot.is_none() as u8;
    let count = Counts::default();
    let source = Source::any(&count, MOST);
    let left = source.left;
    let tail = slot.fill_and_keep_tail(source);
    thrifty(&count, if room == 1 { slot.is_some() as u8 } else { 0 }, room);
    assert!(tail.left == left - count.given.get(), "P25 the tail has all the rest");
    kani::cover!(room == 1 && left > 0, "COVER");
}

#[kani::proof]
#[kani::unwind(7)]
fn p25_slice() {
    let mut mem = [99u8; 3];
    let room: u8 = kani::any();
    kani::assume(room <= 3);
    let count = Counts::default();
    let source = Source::any(&count, MOST);
    let left = source.left;
    let mut iter = mem[..room as usize].iter_mut();
    let tail = iter.fill_and_keep_tail(source);
    thrifty(&count, room - iter.len() as u8, room);
    assert!(tail.left == left - count.given.get(), "P25 the tail has all the rest");
    kani::cover!(room == 2 && left == 4, "COVER");
}

/// By swapping with what is already there.
#[kani::proof]
#[kani::unwind(7)]
fn p25_swap() {
    let mut mem = [9u8; 3];
    let mut other = [0u8, 1, 2, 3];
    let (room, n): (usize, usize) = (kani::any(), kani::any());
    kani::assume(room <= 3 && n <= 4);
    let mut asked = 0u8;
    let mut given = 0u8;
    let stored;
    {
        let mut from = other[..n].iter_mut();
        let mut iter = mem[..room].iter_mut();
        Fill::<&mut u8>::fill(&mut iter, core::iter::from_fn(|| {
            asked += 1;
            let r = from.next();
            given += r.is_some() as u8;
            r
        }));
        stored = room - iter.len();
        assert!(from.len() == n - given as usize, "P25 the tail has all the rest");
    }
    assert!(given as usize == stored, "P25 every item taken is stored");
    assert!(stored == if n < room { n } else { room }, "P25 filled unless the source ends");
    assert!(asked as usize == stored + (n < room) as usize, "P25 a full container does not ask");
    kani::cover!(room == 2 && n == 4, "COVER");
}

/// Containers that may become an error: the first failure counts as stored, and makes it full.
#[kani::proof]
#[kani::unwind(7)]
fn p25_result() {
    let mut mem = [9u8; 3];
    let room: u8 = kani::any();
    kani::assume(room <= 3);
    let count = Counts::default();
    let source = Source::any(&count, MOST);
    let left = source.left;
    let fails: u8 = kani::any();
    let failed: bool = kani::any();
    let mut into = if failed { Err(55) } else { Ok(mem[..room as usize].iter_mut()) };
    let tail = into.fill_and_keep_tail(source.map(|x| if x == fails { Err(x) } else { Ok(x) }));
    drop(tail);
    if failed {
        assert!(into.err() == Some(55) && count.asked.get() == 0, "P25 a full container does not ask");
    } else {
        let fails = fails < left && fails < room;
        let taken = if fails { count.given.get() } else { min(left, room) };
        assert!(count.given.get() == taken, "P25 every item taken is stored");
        match &into {
            Ok(rest) => {
                assert!(!fails, "P25 the failure is stored");
                thrifty(&count, room - rest.len() as u8, room);
            }
            Err(x) => {
                assert!(fails && *x + 1 == count.given.get() && count.asked.get() == *x + 1, "P25 not asked again after a failure");
                kani::cover!(*x == 1, "COVER");
            }
        }
        kani::cover!(room == 2 && left == 4, "COVER full");
    }
}

/// An optional value inside of a result.
#[kani::proof]
#[kani::unwind(7)]
fn p25_result_option() {
    let slot: Option<u8> = kani::any();
    let room = slot.is_none() as u8;
    let count = Counts::default();
    let source = Source::any(&count, MOST);
    let fails: bool = kani::any();
    let mut into: Result<Option<u8>, u8> = Ok(slot);
    into.fill(source.map(|x| if fails { Err(x) } else { Ok(x) }));
    match into {
        Ok(now) => {
            thrifty(&count, if room == 1 { now.is_some() as u8 } else { 0 }, room);
            assert!(room == 1 || now == slot, "P25 a full container does not change");
            kani::cover!(room == 0, "COVER full");
        }
        Err(x) => {
            assert!(room == 1 && fails && x == 0 && count.asked.get() == 1, "P25 not asked again after a failure");
            kani::cover!(true, "COVER");
        }
    }
}

/// The unit takes everything up to the first end.
#[kani::proof]
#[kani::unwind(7)]
fn p25_unit() {
    let count = Counts::default();
    let source = Source::any(&count, MOST);
    let left = source.left;
    ().fill(source.map(drop));
    assert!(count.given.get() == left && count.asked.get() == left + 1, "P25 takes everything up to the first end");
    kani::cover!(left > 2, "COVER");
}
