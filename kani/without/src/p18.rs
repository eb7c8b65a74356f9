//! P18: draining a range removes exactly that range.
use crate::util::*;
use core::mem;
use core::ops::Bound;
use without_alloc::{FixedVec, Uninit};

const CAP: usize = 4;

/// Any range within `n` elements in any notation, and what it means.
fn any_range(n: usize) -> ((Bound<usize>, Bound<usize>), usize, usize) {
    let (s, e): (usize, usize) = (kani::any(), kani::any());
    kani::assume(s <= e && e <= n);
    let start = match kani::any::<u8>() {
        0 if s > 0 => Bound::Excluded(s - 1),
        1 if s == 0 => Bound::Unbounded,
        _ => Bound::Included(s),
    };
    let end = match kani::any::<u8>() {
        0 if e > 0 => Bound::Included(e - 1),
        1 if e == n => Bound::Unbounded,
        _ => Bound::Excluded(e),
    };
    ((start, end), s, e)
}

fn each(drops: &Drops, f: impl Fn(usize) -> bool) {
    let i: usize = kani::any();
    kani::assume(i < 8);
    assert!(drops.of(i) == f(i) as u8, "P18 each element is dropped exactly once, when it leaves");
}

/// `n` elements in a vector; `takes` says how the drain is consumed: `(front, back)` elements.
macro_rules! drained {
    ($($name:ident, |$vec:ident, $drops:ident, $n:ident, $range:ident, $s:ident, $e:ident| $body:block)*) => {$(
        #[kani::proof]
        #[kani::unwind(6)]
        fn $name() {
            let $drops = &Drops::new();
            let mut mem: [mem::MaybeUninit<Tracked>; CAP] = [const { mem::MaybeUninit::uninit() }; CAP];
            let mut $vec = FixedVec::new(Uninit::from(&mut mem[..]));
            let $n: usize = kani::any();
            kani::assume($n <= CAP);
            for i in 0..CAP {
                if i < $n {
                    let _ = $vec.push($drops.make(i));
                }
            }
            let ($range, $s, $e) = any_range($n);
            $body;
            assert!($vec.len() == $n - ($e - $s) && $vec.capacity() == CAP, "P18 the range is gone");
            let k: usize = kani::any();
            kani::assume(k < $vec.len());
            assert!($vec[k].1 as usize == if k < $s { k } else { k + ($e - $s) }, "P18 the others stay in order");
            kani::cover!($s > 0 && $s < $e && $e < $n, "COVER middle");
            drop($vec);
            each($drops, |i| i < $n);
        }
    )*};
}

drained! {
    p18_drop_unused, |vec, drops, n, range, s, e| {
        let d = vec.drain(range);
        assert!(d.len() == e - s && d.is_empty() == (s == e), "P18 as many as in the range");
        each(drops, |_| false);
        drop(d);
        each(drops, |i| i >= s && i < e);
    }
    p18_one_front, |vec, drops, n, range, s, e| {
        let mut d = vec.drain(range);
        let x = d.next();
        assert!(x.as_ref().map(|x| x.1 as usize) == if s < e { Some(s) } else { None }, "P18 in order from the front");
        assert!(d.len() == (e - s).saturating_sub(1), "P18 one less");
        assert!(d.size_hint() == (d.len(), Some(d.len())), "P18 exact hint");
        each(drops, |_| false);
        drop(d);
        each(drops, |i| i > s && i < e);
        drop(x);
    }
    p18_one_back, |vec, drops, n, range, s, e| {
        let mut d = vec.drain(range);
        let x = d.next_back();
        assert!(x.as_ref().map(|x| x.1 as usize + 1) == if s < e { Some(e) } else { None }, "P18 in order from the back");
        assert!(d.len() == (e - s).saturating_sub(1), "P18 one less");
        each(drops, |_| false);
        drop(d);
        each(drops, |i| i >= s && i + 1 < e);
        drop(x);
    }
    p18_both_ends, |vec, drops, n, range, s, e| {
        let mut d = vec.drain(range);
        let x = d.next();
        let y = d.next_back();
        let z = d.next();
        assert!(y.is_some() == (e - s >= 2) && z.is_some() == (e - s >= 3), "P18 each element once");
        if let Some(y) = &y {
            assert!(y.1 as usize == e - 1, "P18 in order from the back");
        }
        if let Some(z) = &z {
            assert!(z.1 as usize == s + 1, "P18 in order from the front");
        }
        drop(d);
        drop((x, y, z));
        each(drops, |i| i >= s && i < e);
    }
    p18_all, |vec, drops, n, range, s, e| {
        let mut count = 0;
        let mut d = vec.drain(range);
        for x in d.by_ref() {
            assert!(x.1 as usize == s + count, "P18 in order");
            count += 1;
        }
        assert!(count == e - s, "P18 all of the range");
        assert!(d.next().is_none() && d.next_back().is_none() && d.len() == 0, "P18 fused");
        drop(d);
        each(drops, |i| i >= s && i < e);
    }
    p18_views, |vec, drops, n, range, s, e| {
        let mut d = vec.drain(range);
        let front: bool = kani::any();
        let x = if front { d.next() } else { d.next_back() };
        let (lo, hi) = match (&x, front) {
            (None, _) => (s, e),
            (Some(_), true) => (s + 1, e),
            (Some(_), false) => (s, e - 1),
        };
        assert!(d.as_slice().len() == hi - lo && d.as_mut_slice().len() == hi - lo, "P18 remaining elements");
        let k: usize = kani::any();
        if k < hi - lo {
            assert!(d.as_slice()[k].1 as usize == lo + k, "P18 remaining elements");
            assert!(d.as_mut_slice()[k].1 as usize == lo + k, "P18 remaining elements");
        }
        drop(d);
        drop(x);
        each(drops, |i| i >= s && i < e);
    }
}

/// A drain that is forgotten may lose elements but duplicates none.
#[kani::proof]
#[kani::unwind(6)]
fn p18_forgotten() {
    let drops = &Drops::new();
    let mut mem: [mem::MaybeUninit<Tracked>; CAP] = [const { mem::MaybeUninit::uninit() }; CAP];
    let mut vec = FixedVec::new(Uninit::from(&mut mem[..]));
    for i in 0..CAP {
        let _ = vec.push(drops.make(i));
    }
    let (range, s, e) = any_range(CAP);
    let mut d = vec.drain(range);
    let x = d.next();
    mem::forget(d);
    assert!(vec.len() <= CAP, "P18 no more elements than before");
    drop(vec);
    drop(x);
    let i: usize = kani::any();
    kani::assume(i < CAP);
    assert!(drops.of(i) <= 1, "P18 never dropped twice");
    kani::cover!(s + 1 < e, "COVER");
}

/// Values of other types, without destructor, in memory of any alignment; any capacity.
#[kani::proof]
#[kani::unwind(14)]
fn p18_values() {
    let mut buf = Buffer::<18>::new();
    let Ok(m) = buf.any().cast_slice::<u16>() else { return };
    let mut vec = FixedVec::<u16>::new(m);
    let n: usize = kani::any();
    kani::assume(n <= vec.capacity());
    unsafe { vec.set_len(n) };
    let (s, e): (usize, usize) = (kani::any(), kani::any());
    kani::assume(s <= e && e <= n);
    let i: usize = kani::any();
    kani::assume(i < n);
    let old = vec[i];
    {
        let mut d = vec.drain(s..e);
        let k: usize = kani::any();
        if let Some(x) = d.nth(k) {
            if i == s + k {
                assert!(x == old, "P18 in order");
            }
        }
    }
    assert!(vec.len() == n - (e - s), "P18 the range is gone");
    if i < s {
        assert!(vec[i] == old, "P18 the prefix stays");
    } else if i >= e {
        assert!(vec[i - (e - s)] == old, "P18 the tail moves up");
        kani::cover!(s < e, "COVER tail");
    }
}

/// Elements of no size.
#[kani::proof]
#[kani::unwind(6)]
fn p18_zero_sized() {
    let mut vec = FixedVec::<ZstTracked>::new(Uninit::empty());
    for _ in 0..3 {
        let _ = vec.push(ZstTracked);
    }
    let mut d = vec.drain(1..2);
    assert!(d.len() == 1, "P18 as many as in the range");
    let x = d.next();
    assert!(x.is_some() && d.next().is_none(), "P18 all of the range");
    drop(d);
    assert!(vec.len() == 2, "P18 the range is gone");
    drop(x);
    drop(vec);
    assert!(unsafe { ZST_DROPS } == 3, "P18 each dropped once");
    kani::cover!(true, "COVER");
}

/// Longer vectors: any number of elements before and behind the range.
#[kani::proof]
#[kani::unwind(5)]
fn p18_large() {
    let mut buf = Buffer::<48>::new();
    let Ok(m) = buf.part(0, 48).cast_slice::<u8>() else { return };
    let mut vec = FixedVec::<u8>::new(m);
    let n: usize = kani::any();
    kani::assume(n <= vec.capacity());
    unsafe { vec.set_len(n) };
    let (s, e): (usize, usize) = (kani::any(), kani::any());
    kani::assume(s <= e && e <= n && e - s <= 3);
    let i: usize = kani::any();
    kani::assume(i < n);
    let old = vec[i];
    drop(vec.drain(s..e));
    assert!(vec.len() == n - (e - s), "P18 the range is gone");
    if i < s {
        assert!(vec[i] == old, "P18 the prefix stays");
    } else if i >= e {
        assert!(vec[i - (e - s)] == old, "P18 the tail moves up");
        kani::cover!(s < e, "COVER tail");
    }
    mem::forget(vec);
}
