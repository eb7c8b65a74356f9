//! P19: filling, extending and splitting vectors.
use crate::util::*;
use core::mem;
use without_alloc::{FixedVec, Uninit};

const CAP: usize = 4;

fn each(drops: &Drops, f: impl Fn(usize) -> bool) {
    let i: usize = kani::any();
    kani::assume(i < 8);
    assert!(drops.of(i) == f(i) as u8, "P19 each element is dropped exactly once, when it leaves");
}

/// Numbers from `at` on, `left` of them, counting how many are asked for.
struct Source<'d> {
    drops: &'d Drops,
    at: usize,
    left: usize,
    ended: bool,
}
impl<'d> Iterator for Source<'d> {
    type Item = Tracked<'d>;
    fn next(&mut self) -> Option<Tracked<'d>> {
        if self.left == 0 && !self.ended {
            self.ended = true;
            return None;
        }
        if self.ended {
            // May go on after its end.
            self.at += 1;
            return Some(self.drops.make(self.at - 1));
        }
        self.left -= 1;
        self.at += 1;
        Some(self.drops.make(self.at - 1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        // A hint need not be of any help, or true.
        (kani::any(), kani::any())
    }
}

macro_rules! some {
    ($drops:ident, $vec:ident, $n:ident) => {
        let $drops = &Drops::new();
        let mut mem: [mem::MaybeUninit<Tracked>; CAP] = [const { mem::MaybeUninit::uninit() }; CAP];
        let mut $vec = FixedVec::new(Uninit::from(&mut mem[..]));
        let $n: usize = kani::any();
        kani::assume($n <= CAP);
        for i in 0..CAP {
            if i < $n {
                let _ = $vec.push($drops.make(i));
            }
        }
    };
}

#[kani::proof]
#[kani::unwind(7)]
fn p19_fill() {
    some!(drops, vec, n);
    let k: usize = kani::any();
    kani::assume(k <= 6);
    kani::assume(n + k <= 8);
    let rest = vec.fill(Source { drops, at: n, left: k, ended: false });
    let taken = if k < CAP - n { k } else { CAP - n };
    assert!(vec.len() == n + taken && vec.capacity() == CAP, "P19 filled as far as there is room");
    assert!(rest.left == k - taken && rest.at == n + taken, "P19 no value is lost, the rest is returned");
    each(drops, |_| false);
    let i: usize = kani::any();
    kani::assume(i < vec.len());
    assert!(vec[i].1 as usize == i, "P19 in order behind what was there");
    kani::cover!(taken > 0 && k > taken, "COVER more than fits");
    drop(rest);
    drop(vec);
    each(drops, |i| i < n + taken);
}

/// Extending accepts everything that fits.
#[kani::proof]
#[kani::unwind(7)]
fn p19_extend() {
    some!(drops, vec, n);
    let k: usize = kani::any();
    kani::assume(k <= CAP - n);
    vec.extend(Source { drops, at: n, left: k, ended: false });
    assert!(vec.len() == n + k && vec.capacity() == CAP, "P19 extended by all");
    let i: usize = kani::any();
    kani::assume(i < vec.len());
    assert!(vec[i].1 as usize == i, "P19 in order behind what was there");
    kani::cover!(n > 0 && k > 0 && n + k == CAP, "COVER");
    drop(vec);
    each(drops, |i| i < n + k);
}

/// Extending by more than fits is not silent.
#[kani::proof]
#[kani::unwind(7)]
#[kani::should_panic]
fn p19_extend_too_many() {
    let mut mem = Buffer::<2>::new();
    let mut vec = FixedVec::<u8>::new(Uninit::from(&mut mem.0[..]));
    vec.extend([1u8, 2, 3]);
}

/// Splitting for good divides elements and capacity.
#[kani::proof]
#[kani::unwind(6)]
fn p19_split_and_shrink() {
    some!(drops, vec, n);
    let at: usize = kani::any();
    kani::assume(at <= CAP);
    let mut second = vec.split_and_shrink_to(at);
    divided(&vec, &second, n, at);
    each(drops, |_| false);
    // Both are vectors in their own right.
    let (a, b) = (vec.len() < at, second.len() < CAP - at);
    assert!(vec.push(drops.make(6)).map_err(mem::forget).is_ok() == a, "P19 the first part has its own capacity");
    assert!(second.push(drops.make(7)).map_err(mem::forget).is_ok() == b, "P19 the second part has its own capacity");
    if n > at {
        assert!(second[0].1 as usize == at, "P19 the parts are independent");
    }
    kani::cover!(at > 0 && n > at, "COVER both have elements");
    drop(vec);
    each(drops, |i| i < n && i < at || i == 6 && a);
    drop(second);
    each(drops, |i| i < n || i == 6 && a || i == 7 && b);
}

fn divided(vec: &FixedVec<Tracked>, second: &FixedVec<Tracked>, n: usize, at: usize) {
    let head = if n < at { n } else { at };
    assert!(vec.len() == head && second.len() == n - head, "P19 elements are divided");
    assert!(second.capacity() == CAP - at, "P19 capacity behind the split");
    let i: usize = kani::any();
    if i < vec.len() {
        assert!(vec[i].1 as usize == i, "P19 in order");
    }
    if i < second.len() {
        assert!(second[i].1 as usize == at + i, "P19 in order");
    }
}

/// Splitting for a while gives the capacity back.
#[kani::proof]
#[kani::unwind(6)]
fn p19_split_borrowed() {
    some!(drops, vec, n);
    let at: usize = kani::any();
    kani::assume(at <= CAP);
    {
        let mut second = vec.split_borrowed(at);
        let (len, cap) = (n.saturating_sub(at), CAP - at);
        assert!(second.len() == len && second.capacity() == cap, "P19 elements and capacity behind the split");
        let i: usize = kani::any();
        if i < len {
            assert!(second[i].1 as usize == at + i, "P19 in order");
        }
        each(drops, |_| false);
        let fits = len < cap;
        match second.push(drops.make(7)) {
            Ok(()) => assert!(fits, "P19 no more than its capacity"),
            Err(x) => {
                assert!(!fits, "P19 up to its capacity");
                mem::forget(x);
            }
        }
        drop(second);
        each(drops, |i| i < n && i >= at || i == 7 && fits);
    }
    let head = if n < at { n } else { at };
    assert!(vec.len() == head && vec.capacity() == CAP, "P19 the capacity comes back, the elements do not");
    let i: usize = kani::any();
    kani::assume(i < head);
    assert!(vec[i].1 as usize == i, "P19 the prefix stays");
    kani::cover!(n > at && at > 0, "COVER");
    let before = drops.of(7);
    drop(vec);
    each(drops, |i| i < n || i == 7 && before == 1);
}

/// Splitting for good, in memory of any alignment and size: exact capacities for values of any size.
macro_rules! capacity {
    ($($name:ident: $t:ty, $kind:ty, $look:literal;)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let size = mem::size_of::<$t>();
            let mut buf = <$kind>::new();
            let Ok(m) = buf.any().cast_slice::<$t>() else { return };
            let whole = m.extent();
            let mut vec = FixedVec::<$t>::new(m);
            let cap = vec.capacity();
            let n: usize = kani::any();
            kani::assume(n <= cap);
            unsafe { vec.set_len(n) };
            let at: usize = kani::any();
            kani::assume(at <= cap);
            let i: usize = kani::any();
            kani::assume(i < n);
            let old = if $look { Some(vec[i]) } else { None };
            let mut second = vec.split_and_shrink_to(at);
            assert!(vec.capacity() == at && second.capacity() == cap - at, "P19 capacity is divided");
            assert!(second.as_ptr() as usize == whole.0 + size * at, "P19 second part directly behind");
            assert!(vec.len() == if n < at { n } else { at } && vec.len() + second.len() == n, "P19 elements are divided");
            if let Some(old) = old {
                assert!(if i < at { vec[i] == old } else { second[i - at] == old }, "P19 elements stay in place");
            }
            let rest = second.shrink_to_fit();
            assert!(second.capacity() == cap - at, "P19 shrinking keeps the capacity");
            let end = whole.0 + size * cap;
            assert!(rest.extent() == Extent(end, whole.end() - end), "P19 and gives back the remainder");
            let rest = vec.shrink_to_fit();
            assert!(rest.extent().1 == 0 && vec.capacity() == at, "P19 nothing more to give back");
            kani::cover!(i >= at && at > 0, "COVER");
            mem::forget((vec, second));
        }
    )*};
}
capacity! {
    p19_split_capacity: Three, Buffer<26>, true;
    p19_split_any_u8: u8, Memory, false;
    p19_split_any_u32: u32, Memory, false;
    p19_split_any_mixed: Mixed, Memory, false;
}

struct Zeros(usize, usize);
impl Iterator for Zeros {
    type Item = ZstTracked;
    fn next(&mut self) -> Option<ZstTracked> {
        if self.0 == 0 {
            return None;
        }
        self.0 -= 1;
        self.1 += 1;
        Some(ZstTracked)
    }
}

/// There is room for any number of values of no size, in any memory.
#[kani::proof]
#[kani::unwind(6)]
fn p19_no_size() {
    let dropped = || unsafe { ZST_DROPS };
    let mut buf = Buffer::<8>::new();
    let mut vec: FixedVec<ZstTracked> = FixedVec::new(buf.any().cast_slice().unwrap());
    let (n, k): (usize, usize) = (kani::any(), kani::any());
    kani::assume(n <= 2 && k <= 3);
    for _ in 0..n {
        let _ = vec.push(ZstTracked);
    }
    if kani::any() {
        vec.extend(Zeros(k, 0));
    } else {
        let rest = vec.fill(Zeros(k, 0));
        assert!(rest.0 == 0 && rest.1 == k, "P19 no value is lost");
    }
    let len = n + k;
    assert!(vec.len() == len && dropped() == 0, "P19 filled as far as there is room");
    let at: usize = kani::any();
    let head = if at < len { at } else { len };
    if kani::any() {
        let second = vec.split_borrowed(at);
        assert!(second.len() == len - head && dropped() == 0, "P19 elements are divided");
        drop(second);
    } else {
        let second = vec.split_and_shrink_to(at);
        assert!(second.len() == len - head && dropped() == 0, "P19 elements are divided");
        drop(second);
    }
    assert!(vec.len() == head && dropped() == len - head, "P19 each element is dropped exactly once, when it leaves");
    drop(vec);
    assert!(dropped() == len, "P19 each element is dropped exactly once");
    kani::cover!(at == 1 && len == 5, "COVER");
}

/// Elements of no size are divided, too, and each is dropped once.
#[kani::proof]
#[kani::unwind(6)]
fn p19_split_no_size() {
    let dropped = || unsafe { ZST_DROPS };
    let mut buf = Buffer::<4>::new();
    let mut vec: FixedVec<ZstTracked> = FixedVec::new(buf.any().cast_slice().unwrap());
    let (n, at): (usize, usize) = (kani::any(), kani::any());
    kani::assume(n <= 4);
    for _ in 0..n {
        let _ = vec.push(ZstTracked);
    }
    let head = if n < at { n } else { at };
    if kani::any() {
        let second = vec.split_borrowed(at);
        assert!(second.len() == n - head && dropped() == 0, "P19 elements are divided");
        drop(second);
        assert!(dropped() == n - head, "P19 each element is dropped exactly once");
    } else {
        let second = vec.split_and_shrink_to(at);
        assert!(second.len() == n - head && vec.len() == head && dropped() == 0, "P19 elements are divided");
        drop(second);
        assert!(dropped() == n - head, "P19 each element is dropped exactly once");
    }
    assert!(vec.len() == head, "P19 elements are divided");
    let _ = vec.shrink_to_fit();
    assert!(vec.len() == head && dropped() == n - head, "P19 shrinking loses none");
    drop(vec);
    assert!(dropped() == n, "P19 each element is dropped exactly once");
    kani::cover!(head > 0 && head < n, "COVER divided");
}
