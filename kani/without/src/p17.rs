//! P17: the fixed capacity vector is a bounded sequence.
use crate::util::*;
use core::borrow::{Borrow, BorrowMut};
use core::mem;
use vcommon::*;
use without_alloc::{FixedVec, Uninit};

const N: usize = 26;

/// Any state: memory of any alignment and size, any number of elements of any value.
macro_rules! any_vec {
    ($kind:ty, $buf:ident, $vec:ident, $t:ty, $n:ident, $cap:ident, $whole:ident) => {
        let mut $buf = <$kind>::new();
        let Ok(mem) = $buf.any().cast_slice::<$t>() else { return };
        let $whole = mem.extent();
        let $cap = $whole.1.checked_div(mem::size_of::<$t>()).unwrap_or(usize::MAX);
        #[allow(unused_mut)]
        let mut $vec = FixedVec::<$t>::new(mem);
        assert!($vec.len() == 0 && $vec.is_empty(), "P17 starts empty");
        assert!($vec.capacity() == $cap, "P17 as many elements as there is room for");
        let $n: usize = kani::any();
        kani::assume($n <= $cap);
        unsafe { $vec.set_len($n) };
        assert!($vec.len() == $n && $vec.is_empty() == ($n == 0), "P17 length");
        let _ = $whole;
    };
}

/// Look at an arbitrary element.
fn look<T: Copy>(v: &FixedVec<T>, n: usize) -> (usize, Option<T>) {
    let i: usize = kani::any();
    (i, if i < n { Some(v[i]) } else { None })
}

macro_rules! values {
    ($($t:ty, $kind:ty: $push:ident, $pop:ident, $views:ident;)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $push() {
            any_vec!($kind, buf, vec, $t, n, cap, whole);
            let (i, old) = look(&vec, n);
            let x: $t = kani::any();
            match vec.push(x) {
                Ok(()) => {
                    assert!(n < cap, "P17 never more than the capacity");
                    assert!(vec.len() == n + 1 && vec.capacity() == cap, "P17 one element more");
                    assert!(vec[n] == x, "P17 pushed to the end");
                    assert!(*vec.last().unwrap() == x, "P17 pushed to the end");
                    if let Some(old) = old {
                        assert!(vec[i] == old, "P17 other elements stay");
                        kani::cover!(true, "COVER others");
                    }
                    kani::cover!(n + 1 == cap, "COVER full now");
                }
                Err(y) => {
                    assert!(n == cap, "P17 only a full vector refuses");
                    assert!(y == x, "P17 the refused value is returned");
                    assert!(vec.len() == n && vec.capacity() == cap, "P17 refusal changes nothing");
                    if let Some(old) = old {
                        assert!(vec[i] == old, "P17 other elements stay");
                    }
                    kani::cover!(true, "COVER full");
                }
            }
            assert!(vec.as_slice().as_ptr() as usize == whole.0, "P17 elements are where the memory is");
            mem::forget(vec);
        }
        #[kani::proof]
        #[kani::unwind(4)]
        fn $pop() {
            any_vec!($kind, buf, vec, $t, n, cap, whole);
            let (i, old) = look(&vec, n);
            match vec.pop() {
                Some(x) => {
                    assert!(n > 0, "P17 nothing comes from nothing");
                    assert!(vec.len() == n - 1 && vec.capacity() == cap, "P17 one element less");
                    if let Some(old) = old {
                        if i == n - 1 {
                            assert!(x == old, "P17 the last element is popped");
                            kani::cover!(true, "COVER last");
                        } else {
                            assert!(vec[i] == old, "P17 other elements stay");
                        }
                    }
                }
                None => {
                    assert!(n == 0 && vec.len() == 0, "P17 only an empty vector has none");
                    kani::cover!(true, "COVER empty");
                }
            }
            mem::forget(vec);
        }
        #[kani::proof]
        #[kani::unwind(4)]
        fn $views() {
            any_vec!($kind, buf, vec, $t, n, cap, whole);
            let (i, old) = look(&vec, n);
            assert!(vec.as_ptr() as usize == whole.0 && vec.as_mut_ptr() as usize == whole.0, "P17 place");
            assert!(aligned(whole.0, mem::align_of::<$t>()), "P17 aligned");
            assert!(vec.as_slice().len() == n && vec.as_mut_slice().len() == n, "P17 slices have the length");
            let r: &[$t] = vec.as_ref();
            assert!(r.len() == n, "P17 slices have the length");
            let r: &[$t] = vec.borrow();
            assert!(r.len() == n && r.as_ptr() as usize == whole.0, "P17 slices have the length");
            if let Some(old) = old {
                assert!(vec.as_slice()[i] == old && vec.as_mut_slice()[i] == old, "P17 slices agree");
                assert!((&*vec)[i] == old && (&mut *vec)[i] == old, "P17 slices agree");
                let w: $t = kani::any();
                vec[i] = w;
                assert!(vec[i] == w && vec.as_slice()[i] == w, "P17 writable");
                let r: &mut [$t] = vec.as_mut();
                r[i] = old;
                let r: &mut [$t] = vec.borrow_mut();
                assert!(r[i] == old, "P17 writable");
                kani::cover!(i > 0, "COVER element");
            }
            mem::forget(vec);
        }
    )*};
}
values! {
    u8, Memory: p17_push_u8, p17_pop_u8, p17_views_u8;
    u32, Memory: p17_push_u32, p17_pop_u32, p17_views_u32;
    Three, Buffer<N>: p17_push_three, p17_pop_three, p17_views_three;
    Mixed, Memory: p17_push_mixed, p17_pop_mixed, p17_views_mixed;
    ZstOver, Buffer<N>: p17_push_zst, p17_pop_zst, p17_views_zst;
    Wide, Buffer<290>: p17_push_wide, p17_pop_wide, p17_views_wide;
}

/// Truncation of elements without destructor, to any length.
#[kani::proof]
#[kani::unwind(14)]
fn p17_truncate_values() {
    any_vec!(Memory, buf, vec, u16, n, cap, whole);
    let (i, old) = look(&vec, n);
    let to: usize = kani::any();
    // Dropping is one step per element, also if that does nothing.
    kani::assume(n <= to || n - to <= 12);
    vec.truncate(to);
    let m = if to < n { to } else { n };
    assert!(vec.len() == m && vec.capacity() == cap, "P17 shortened to the length if longer");
    if i < m {
        assert!(vec[i] == old.unwrap(), "P17 the prefix stays");
        kani::cover!(to < n, "COVER shortened");
    }
    kani::assume(m <= 12);
    vec.clear();
    assert!(vec.is_empty() && vec.capacity() == cap, "P17 cleared");
}

/// Vectors of values with a destructor: `n` elements numbered in order.
macro_rules! tracked {
    ($($name:ident, |$vec:ident, $drops:ident, $n:ident| $body:block)*) => {$(
        #[kani::proof]
        #[kani::unwind(6)]
        fn $name() {
            let $drops = &Drops::new();
            let mut mem: [mem::MaybeUninit<Tracked>; 4] = [const { mem::MaybeUninit::uninit() }; 4];
            #[allow(unused_mut)]
            let mut $vec = FixedVec::new(Uninit::from(&mut mem[..]));
            let $n: usize = kani::any();
            kani::assume($n <= 4);
            for i in 0..4 {
                if i < $n {
                    assert!($vec.push($drops.make(i)).is_ok(), "P17 pushes until full");
                }
            }
            $body;
        }
    )*};
}

fn each(drops: &Drops, f: impl Fn(usize) -> bool) {
    let i: usize = kani::any();
    kani::assume(i < 8);
    assert!(drops.of(i) == f(i) as u8, "P17 each element is dropped exactly once, when it leaves");
}

tracked! {
    p17_drop_all, |vec, drops, n| {
        each(drops, |_| false);
        drop(vec);
        each(drops, |i| i < n);
        kani::cover!(n == 4, "COVER");
    }
    p17_drop_truncate, |vec, drops, n| {
        let to: usize = kani::any();
        vec.truncate(to);
        each(drops, |i| i < n && i >= to);
        if vec.len() < 4 {
            assert!(vec.push(drops.make(7)).is_ok(), "P17 there is room again");
            each(drops, |i| i < n && i >= to);
        }
        kani::cover!(to > 0 && to < n, "COVER");
        let seven = vec.last().map_or(false, |v| v.1 == 7);
        drop(vec);
        each(drops, |i| i < n || i == 7 && seven);
    }
    p17_drop_clear, |vec, drops, n| {
        vec.clear();
        each(drops, |i| i < n);
        drop(vec);
        each(drops, |i| i < n);
        kani::cover!(true, "COVER");
    }
    p17_drop_pop, |vec, drops, n| {
        let x = vec.pop();
        each(drops, |_| false);
        drop(vec);
        each(drops, |i| i + 1 < n);
        assert!(x.as_ref().map(|x| x.1 as usize + 1) == if n == 0 { None } else { Some(n) }, "P17 the last element");
        drop(x);
        each(drops, |i| i < n);
        kani::cover!(n > 1, "COVER");
    }
    p17_drop_refused, |vec, drops, n| {
        match vec.push(drops.make(7)) {
            Ok(()) => {
                each(drops, |_| false);
                drop(vec);
                each(drops, |i| i < n || i == 7);
            }
            Err(x) => {
                each(drops, |_| false);
                drop(vec);
                each(drops, |i| i < n);
                drop(x);
                each(drops, |i| i < n || i == 7);
                kani::cover!(true, "COVER");
            }
        }
    }
    p17_drop_assign, |vec, drops, n| {
        let i: usize = kani::any();
        kani::assume(i < n);
        vec[i] = drops.make(7);
        each(drops, |k| k == i);
        drop(vec);
        each(drops, |k| k < n || k == 7);
        kani::cover!(i > 0, "COVER");
    }
}

/// Elements of no size: any number of them.
#[kani::proof]
#[kani::unwind(6)]
fn p17_zero_sized() {
    let mut vec = FixedVec::<ZstTracked>::new(Uninit::empty());
    assert!(vec.capacity() == usize::MAX, "P17 room for any number");
    assert!(vec.push(ZstTracked).is_ok() && vec.push(ZstTracked).is_ok() && vec.push(ZstTracked).is_ok());
    assert!(vec.len() == 3, "P17 counted");
    mem::forget(vec.pop());
    assert!(vec.len() == 2 && unsafe { ZST_DROPS } == 0, "P17 none dropped yet");
    vec.truncate(1);
    assert!(vec.len() == 1 && unsafe { ZST_DROPS } == 1, "P17 dropped once");
    drop(vec);
    assert!(unsafe { ZST_DROPS } == 2, "P17 each dropped once");
    kani::cover!(true, "COVER");
}

/// A full vector of elements of no size refuses.
#[kani::proof]
#[kani::unwind(6)]
fn p17_zero_sized_full() {
    let mut vec = FixedVec::<()>::new(Uninit::empty());
    let n: usize = kani::any();
    unsafe { vec.set_len(n) };
    match vec.push(()) {
        Ok(()) => assert!(n < usize::MAX && vec.len() == n + 1, "P17 counted"),
        Err(()) => assert!(n == usize::MAX && vec.len() == n, "P17 only a full vector refuses"),
    }
    mem::forget(vec);
    kani::cover!(true, "COVER");
}

/// Unaligned memory of any kind is used from its first aligned address on.
#[kani::proof]
#[kani::unwind(4)]
fn p17_from_unaligned() {
    let mut buf = Memory::new();
    let mem = buf.any();
    let whole = mem.extent();
    let mut vec = FixedVec::<u32>::from_unaligned(mem);
    let at = align_up(whole.0, 4).unwrap();
    if at - whole.0 <= whole.1 {
        let room = whole.1 - (at - whole.0);
        assert!(vec.capacity() == room / 4, "P17 as many elements as there is room for");
        assert!(vec.as_ptr() as usize == at, "P17 at the first aligned address");
    } else {
        assert!(vec.capacity() == 0, "P17 no room at all");
    }
    let (x, y): (u32, u32) = (kani::any(), kani::any());
    if vec.push(x).is_ok() {
        assert!(aligned(vec.as_ptr() as usize, 4), "P17 aligned");
        if vec.push(y).is_ok() {
            assert!(vec[0] == x && vec[1] == y, "P17 elements in order");
            kani::cover!(true, "COVER");
        }
    }
}

/// Comparisons and hashes are those of the slices.
#[kani::proof]
#[kani::unwind(10)]
fn p17_comparisons() {
    let (mut m1, mut m2) = (Buffer::<3>::new(), Buffer::<3>::new());
    let (n1, n2): (usize, usize) = (kani::any(), kani::any());
    kani::assume(n1 <= 2 && n2 <= 2);
    let mut a = FixedVec::<u8>::new(Uninit::from(&mut m1.0[..]));
    let mut b = FixedVec::<u8>::new(Uninit::from(&mut m2.0[..]));
    let (x, y): ([u8; 2], [u8; 2]) = (kani::any(), kani::any());
    for i in 0..2 {
        if i < n1 { let _ = a.push(x[i]); }
        if i < n2 { let _ = b.push(y[i]); }
    }
    let (p, q) = (&x[..n1], &y[..n2]);
    // Equality and order of slices, spelled out.
    let cmp = order(p, q);
    assert!((a == b) == (cmp == core::cmp::Ordering::Equal), "P17 equality of the elements");
    assert!((a != b) == (cmp != core::cmp::Ordering::Equal), "P17 equality of the elements");
    assert!(a.partial_cmp(&b) == Some(cmp) && a.cmp(&b) == cmp, "P17 order of the elements");
    assert!((a < b) == cmp.is_lt() && (a <= b) == cmp.is_le(), "P17 order of the elements");
    assert!((a > b) == cmp.is_gt() && (a >= b) == cmp.is_ge(), "P17 order of the elements");
    assert!(hash(&a) == hash(&p), "P17 hash of the elements");
    let _ = q;
    kani::cover!(cmp.is_lt() && n1 > n2, "COVER");
}

/// Elements that are not totally ordered, such as floating point numbers.
#[kani::proof]
#[kani::unwind(4)]
fn p17_partial_comparisons() {
    let mut m1: [mem::MaybeUninit<Odd>; 2] = [mem::MaybeUninit::uninit(); 2];
    let mut m2: [mem::MaybeUninit<Odd>; 2] = [mem::MaybeUninit::uninit(); 2];
    let (n1, n2): (usize, usize) = (kani::any(), kani::any());
    kani::assume(n1 <= 2 && n2 <= 2);
    let mut a = FixedVec::new(Uninit::from(&mut m1[..]));
    let mut b = FixedVec::new(Uninit::from(&mut m2[..]));
    let (x, y): ([Odd; 2], [Odd; 2]) = (kani::any(), kani::any());
    for i in 0..2 {
        if i < n1 { let _ = a.push(x[i]); }
        if i < n2 { let _ = b.push(y[i]); }
    }
    // Equality and order of slices, spelled out.
    let mut cmp = Some(n1.cmp(&n2));
    let mut eq = n1 == n2;
    let m = if n1 < n2 { n1 } else { n2 };
    for i in [1, 0] {
        if i < m {
            eq &= x[i] == y[i];
            match x[i].partial_cmp(&y[i]) {
                Some(core::cmp::Ordering::Equal) => (),
                other => cmp = other,
            }
        }
    }
    assert!((a == b) == eq && (a != b) == !eq, "P17 equality of the elements");
    assert!(a.partial_cmp(&b) == cmp, "P17 order of the elements");
    use core::cmp::Ordering::*;
    assert!((a < b) == (cmp == Some(Less)), "P17 order of the elements");
    assert!((a <= b) == (cmp == Some(Less) || cmp == Some(Equal)), "P17 order of the elements");
    assert!((a > b) == (cmp == Some(Greater)), "P17 order of the elements");
    assert!((a >= b) == (cmp == Some(Greater) || cmp == Some(Equal)), "P17 order of the elements");
    let reflexive = (n1 < 1 || x[0] == x[0]) && (n1 < 2 || x[1] == x[1]);
    assert!((a == a) == reflexive && (a != a) == !reflexive, "P17 equality of the elements");
    assert!(a.partial_cmp(&a).is_some() == reflexive, "P17 order of the elements");
    kani::cover!(cmp == None && n1 == 2 && n2 == 2, "COVER unordered");
}

/// Elements of no size are dropped once each, too.
#[kani::proof]
#[kani::unwind(6)]
fn p17_zero_sized_drops() {
    let dropped = || unsafe { ZST_DROPS };
    let mut vec = FixedVec::<ZstTracked>::new(Uninit::empty());
    let n: usize = kani::any();
    kani::assume(n <= 4);
    for _ in 0..n {
        assert!(vec.push(ZstTracked).is_ok(), "P17 room for any number");
    }
    let to: usize = kani::any();
    let m = match kani::any::<u8>() {
        0 => { vec.truncate(to); if to < n { to } else { n } }
        1 => { vec.clear(); 0 }
        2 => { drop(vec.pop()); n.saturating_sub(1) }
        _ => n,
    };
    assert!(vec.len() == m && dropped() == n - m, "P17 each element is dropped exactly once, when it leaves");
    drop(vec);
    assert!(dropped() == n, "P17 each element is dropped exactly once");
    kani::cover!(n == 4 && m == 1, "COVER");
}

fn order(p: &[u8], q: &[u8]) -> core::cmp::Ordering {
    let mut i = 0;
    loop {
        match (i < p.len(), i < q.len()) {
            (false, false) => return core::cmp::Ordering::Equal,
            (false, true) => return core::cmp::Ordering::Less,
            (true, false) => return core::cmp::Ordering::Greater,
            _ if p[i] < q[i] => return core::cmp::Ordering::Less,
            _ if p[i] > q[i] => return core::cmp::Ordering::Greater,
            _ => i += 1,
        }
    }
}
