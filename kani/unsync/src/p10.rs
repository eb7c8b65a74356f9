//! P10: the single-threaded bump allocator over any backing: own storage of any type, borrowed
//! bytes of any alignment and length, heap memory. Regions are inside, aligned and disjoint; a
//! request succeeds exactly if it fits and takes exactly what it needs.
use crate::util::*;
use core::alloc::Layout;
use core::mem;
use static_alloc::unsync::{Bump, MemBump};
use vcommon::*;

fn spec(base: usize, c: usize, cap: usize, size: usize, align: usize) -> Option<usize> {
    let at = align_up(base + c, align)? - base;
    if at <= cap && size <= cap - at { Some(at) } else { None }
}

/// The memory an allocator is made of, as its owner sees it.
struct Owned(usize, usize);

fn owned<T: ?Sized>(t: &T) -> Owned {
    Owned(t as *const T as *const u8 as usize, mem::size_of_val(t))
}

fn fresh(b: &MemBump, o: &Owned) {
    let (base, cap) = (b.data_ptr().as_ptr() as usize, b.capacity());
    assert!(inside(base, cap, o.0, o.1), "P10 the memory is the owner's");
    assert!(b.level() == level_of(0), "P10 starts empty");
}

/// Allocation of an arbitrary layout from an arbitrary state.
fn step(b: &mut MemBump, o: Owned) {
    fresh(b, &o);
    let (base, cap) = (b.data_ptr().as_ptr() as usize, b.capacity());
    let c: usize = kani::any();
    kani::assume(c <= cap);
    let l = any_nonempty_layout();
    let at = spec(base, c, cap, l.size(), l.align());
    let now = level_in(b, c);
    let then = at.map(|at| level_in(b, at + l.size()));
    raise_to(b, c);
    assert!(b.level() == now, "P10 the level counts the bytes in use");
    match (at, b.alloc(l)) {
        (Some(at), Some(p)) => {
            assert!(p.as_ptr() as usize == base + at, "P10 placed at the first aligned address");
            assert!(aligned(p.as_ptr() as usize, l.align()), "P10 aligned");
            let after = b.level();
            assert!(after == then.unwrap() && after > now, "P10 takes exactly what it needs");
            let i: usize = kani::any();
            kani::assume(i < l.size());
            unsafe { p.as_ptr().add(i).write(kani::any()) };
            assert!(b.level() == after && b.capacity() == cap, "P10 the region is not the bookkeeping");
            kani::cover!(at > c, "COVER padding");
            kani::cover!(true, "COVER allocated");
        }
        (None, None) => {
            assert!(b.level() == now, "P10 failure changes nothing");
            kani::cover!(true, "COVER refused");
        }
        (Some(_), None) => assert!(false, "P10 an allocation that fits succeeds"),
        (None, Some(_)) => assert!(false, "P10 an allocation that does not fit fails"),
    }
    b.reset();
    assert!(b.level() == level_of(0), "P10 reset empties");
    assert!(b.capacity() == cap, "P10 capacity is fixed");
}

macro_rules! owned_harness {
    ($($name:ident, $t:ty, $ctor:ident, $f:expr;)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let mut b = Bump::<$t>::$ctor();
            let o = owned(&b);
            assert!(b.capacity() >= mem::size_of::<$t>(), "P10 at least the storage is available");
            assert!(&*b as *const MemBump as *const u8 as usize == o.0, "P10 dereferences to itself");
            $f(&mut b, o);
        }
    )*};
}

#[repr(align(2))]
#[allow(dead_code)]
struct Odd([u8; 10]);

owned_harness! {
    p10_step_bytes, [u8; 24], uninit, step;
    p10_step_words, [u64; 3], uninit, step;
    p10_step_small, u16, uninit, step;
    p10_step_odd, Odd, uninit, step;
    p10_step_over, [Over; 1], uninit, step;
    p10_step_unit, (), uninit, step;
    p10_step_zeroed, [u8; 24], zeroed, step;
    p10_step_zeroed_over, [Over; 1], zeroed, step;
    p10_pair_bytes, [u8; 24], uninit, pair;
    p10_pair_over, [Over; 1], uninit, pair;
    p10_content, [u8; 24], zeroed, content;
    p10_content_over, [Over; 1], zeroed, content;
}

/// A borrowed buffer of any alignment and length.
#[kani::proof]
#[kani::unwind(10)]
fn p10_step_borrowed() {
    let mut buf = Buffer::<40>::new();
    let mem = buf.any();
    let o = owned(mem);
    if let Ok(mut b) = MemBump::from_mem(mem) {
        step(&mut b, o);
        kani::cover!(true, "COVER borrowed");
    };
}

/// Memory of any size: what is handed out next tells where the last region ended.
fn step_long(b: &mut MemBump, o: Owned) {
    fresh(b, &o);
    let (base, cap) = (b.data_ptr().as_ptr() as usize, b.capacity());
    let c = raise(b);
    let now = b.level();
    let l = any_nonempty_layout();
    let end = match (spec(base, c, cap, l.size(), l.align()), b.alloc(l)) {
        (Some(at), Some(p)) => {
            assert!(p.as_ptr() as usize == base + at, "P10 placed at the first aligned address");
            assert!(b.level() > now, "P10 takes exactly what it needs");
            kani::cover!(at > 1 << 40, "COVER allocated");
            at + l.size()
        }
        (None, None) => {
            assert!(b.level() == now, "P10 failure changes nothing");
            kani::cover!(c > 1 << 40, "COVER refused");
            c
        }
        (Some(_), None) => panic!("P10 an allocation that fits succeeds"),
        (None, Some(_)) => panic!("P10 an allocation that does not fit fails"),
    };
    let next = b.alloc(bytes(1)).map(|p| p.as_ptr() as usize);
    assert!(next == if end < cap { Some(base + end) } else { None }, "P10 takes exactly what it needs");
}

#[kani::proof]
#[kani::unwind(10)]
fn p10_step_long_deep() {
    let mut buf = Long::new();
    let mem = buf.from(0);
    let o = owned(mem);
    if let Ok(mut b) = MemBump::from_mem(mem) {
        step_long(&mut b, o);
    };
}

/// Heap memory.
#[kani::proof]
#[kani::unwind(4)]
fn p10_step_heap_small() {
    let n: usize = kani::any();
    kani::assume(n <= 40);
    let mut b = MemBump::new(n);
    let o = Owned(&*b as *const MemBump as *const u8 as usize, mem::size_of_val(&*b));
    step(&mut b, o);
}

/// Heap memory of any capacity.
#[kani::proof]
#[kani::unwind(4)]
fn p10_step_heap() {
    let n: usize = kani::any();
    kani::assume(n < 1 << 46);
    let mut b = MemBump::new(n);
    assert!(b.capacity() == n, "P10 requested capacity");
    let o = Owned(&*b as *const MemBump as *const u8 as usize, mem::size_of_val(&*b));
    step_long(&mut b, o);
}

/// Two allocations of any history.
fn pair(b: &mut MemBump, _: Owned) {
    raise(b);
    let la = any_nonempty_layout();
    let Some(p) = b.alloc(la) else { return };
    let d: usize = kani::any();
    kani::assume(d <= b.capacity());
    if d > 0 {
        let _ = b.alloc(bytes(d));
    }
    let lb = any_nonempty_layout();
    let Some(q) = b.alloc(lb) else { return };
    let (p, q) = (p.as_ptr() as usize, q.as_ptr() as usize);
    assert!(p + la.size() <= q || q + lb.size() <= p, "P10 regions do not overlap");
    kani::cover!(true, "COVER pair");
}

/// Zeroed memory is zero, and earlier content stays.
fn content(b: &mut MemBump, _: Owned) {
    let b = &*b;
    let l = any_nonempty_layout();
    let (i, x): (usize, u8) = (kani::any(), kani::any());
    kani::assume(i < l.size());
    if let Some(p) = b.alloc(l) {
        assert!(unsafe { p.as_ptr().add(i).read() } == 0, "P10 zeroed memory");
        unsafe { p.as_ptr().add(i).write(x) };
        let m = any_nonempty_layout();
        let j: usize = kani::any();
        kani::assume(j < m.size());
        if let Some(q) = b.alloc(m) {
            assert!(unsafe { q.as_ptr().add(j).read() } == 0, "P10 zeroed memory");
            unsafe { q.as_ptr().add(j).write(kani::any()) };
            kani::cover!(true, "COVER two");
        }
        assert!(unsafe { p.as_ptr().add(i).read() } == x, "P10 earlier content is kept");
    }
}

#[derive(Clone, Copy, PartialEq, kani::Arbitrary)]
struct Mixed {
    a: u8,
    b: u32,
}
#[repr(align(16))]
struct ZstOver;

/// Typed requests and boxes agree with the layout of the type.
fn typed<V>(boxed: bool) {
    let mut b = Bump::<[u8; 24]>::uninit();
    let b = &mut *b;
    let (base, cap) = (b.data_ptr().as_ptr() as usize, b.capacity());
    let c = raise(b);
    let r = if boxed {
        b.bump_box::<V>().ok().map(|mut x| x.as_mut_ptr() as usize)
    } else {
        b.get::<V>().map(|a| {
            assert!(a.level == b.level(), "P10 reported level is the new level");
            a.ptr.as_ptr() as usize
        })
    };
    let size = mem::size_of::<V>();
    if size == 0 {
        assert!(r.is_some(), "P10 zero-sized values always fit");
        assert!(aligned(r.unwrap(), mem::align_of::<V>()), "P10 aligned");
        assert!(b.level() == level_of(c), "P10 zero-sized values need no space");
        kani::cover!(true, "COVER zero-sized");
    } else {
        match spec(base, c, cap, size, mem::align_of::<V>()) {
            Some(at) => {
                assert!(r == Some(base + at), "P10 placed at the first aligned address");
                assert!(b.level() == level_of(at + size), "P10 takes exactly what it needs");
                kani::cover!(true, "COVER typed");
            }
            None => {
                assert!(r.is_none(), "P10 an allocation that does not fit fails");
                assert!(b.level() == level_of(c), "P10 failure changes nothing");
            }
        }
    }
}

macro_rules! typed_harness {
    ($($name:ident, $v:ty, $boxed:literal;)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() { typed::<$v>($boxed) }
    )*};
}
typed_harness! {
    p10_get_u8, u8, false;
    p10_get_mixed, Mixed, false;
    p10_get_unit, (), false;
    p10_get_zst_over, ZstOver, false;
    p10_box_mixed, Mixed, true;
    p10_box_unit, (), true;
    p10_box_zst_over, ZstOver, true;
}

/// Arrays of any length.
fn array<V>() {
    let mut b = Bump::<[u8; 24]>::uninit();
    let b = &mut *b;
    let (base, cap) = (b.data_ptr().as_ptr() as usize, b.capacity());
    let c = raise(b);
    let n: usize = kani::any();
    let r = b.bump_array::<V>(n).ok().map(|mut a| {
        assert!(a.len() == n, "P10 as many elements as requested");
        a.as_mut_ptr() as usize
    });
    let size = mem::size_of::<V>().checked_mul(n);
    match size {
        Some(0) => {
            assert!(r.is_some(), "P10 an empty array always fits");
            assert!(aligned(r.unwrap(), mem::align_of::<V>()), "P10 aligned");
            assert!(b.level() == level_of(c), "P10 an empty array needs no space");
            kani::cover!(true, "COVER empty");
        }
        Some(size) if spec(base, c, cap, size, mem::align_of::<V>()).is_some() => {
            let at = spec(base, c, cap, size, mem::align_of::<V>()).unwrap();
            assert!(r == Some(base + at), "P10 placed at the first aligned address");
            assert!(b.level() == level_of(at + size), "P10 takes exactly what it needs");
            kani::cover!(n > 1, "COVER array");
        }
        _ => {
            assert!(r.is_none(), "P10 an array that does not fit fails");
            assert!(b.level() == level_of(c), "P10 failure changes nothing");
            kani::cover!(true, "COVER refused");
        }
    }
}
macro_rules! array_harness {
    ($($name:ident, $v:ty;)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() { array::<$v>() }
    )*};
}
array_harness! {
    p10_array_u8, u8;
    p10_array_u32, u32;
    p10_array_unit, ();
    p10_array_zst_over, ZstOver;
}

/// Arrays in memory of any size.
macro_rules! long_array {
    ($($name:ident, $v:ty;)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let m: usize = kani::any();
            kani::assume(m < 1 << 46);
            let b = MemBump::new(m);
            let (base, cap) = (b.data_ptr().as_ptr() as usize, b.capacity());
            let c = raise(&b);
            let now = b.level();
            let n: usize = kani::any();
            let size = mem::size_of::<$v>().checked_mul(n);
            kani::assume(size != Some(0));
            let at = size.and_then(|size| spec(base, c, cap, size, mem::align_of::<$v>()));
            match b.bump_array::<$v>(n) {
                Ok(mut a) => {
                    assert!(a.len() == n, "P10 as many elements as requested");
                    assert!(at.map(|at| base + at) == Some(a.as_mut_ptr() as usize), "P10 placed at the first aligned address");
                    assert!(b.level() > now, "P10 takes exactly what it needs");
                    let end = at.unwrap() + size.unwrap();
                    let next = b.alloc(bytes(1)).map(|p| p.as_ptr() as usize);
                    assert!(next == if end < cap { Some(base + end) } else { None }, "P10 takes exactly what it needs");
                    kani::cover!(n > 1 << 40, "COVER array");
                }
                Err(_) => {
                    assert!(at.is_none(), "P10 an array that fits succeeds");
                    assert!(b.level() == now, "P10 failure changes nothing");
                }
            };
        }
    )*};
}
long_array! {
    p10_array_long_u8, u8;
    p10_array_long_u32, u32;
    p10_array_long_over, Over;
}

/// Types of any size and alignment in memory of any size.
macro_rules! long_typed {
    ($($name:ident, $v:ident, $align:literal, $size:literal;)*) => {$(
        #[repr(align($align))]
        #[allow(dead_code)]
        struct $v([u8; $size]);

        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let m: usize = kani::any();
            kani::assume(m < 1 << 46);
            let b = MemBump::new(m);
            let (base, cap) = (b.data_ptr().as_ptr() as usize, b.capacity());
            let c = raise(&b);
            let now = b.level();
            let size = mem::size_of::<$v>();
            let at = spec(base, c, cap, size, mem::align_of::<$v>());
            let r = match kani::any::<u8>() {
                0 => b.get::<$v>().map(|a| a.ptr.as_ptr() as usize),
                1 => b.get_at::<$v>(now).ok().map(|a| a.ptr.as_ptr() as usize),
                _ => b.bump_box::<$v>().ok().map(|mut a| a.as_mut_ptr() as usize),
            };
            assert!(r == at.map(|at| base + at), "P10 placed at the first aligned address exactly if it fits");
            let end = at.map_or(c, |at| at + size);
            let next = b.alloc(bytes(1)).map(|p| p.as_ptr() as usize);
            assert!(next == if end < cap { Some(base + end) } else { None }, "P10 takes exactly what it needs");
            kani::cover!(c > 1 << 40 && r.is_some(), "COVER typed");
        }
    )*};
}
long_typed! {
    p10_typed_long_block, Block, 1, 300;
    p10_typed_long_128, Aligned128, 128, 3;
    p10_typed_long_4096, Aligned4096, 4096, 3;
    p10_typed_long_65536, Aligned65536, 65536, 3;
}

/// A value written through a box is what is read.
#[kani::proof]
#[kani::unwind(4)]
fn p10_box_value() {
    use static_alloc::leaked::LeakBox;
    let b = Bump::<[u8; 24]>::uninit();
    raise(&b);
    let (v, w): (Mixed, Mixed) = (kani::any(), kani::any());
    let Ok(x) = b.bump_box::<Mixed>() else { return };
    let x = LeakBox::write(x, v);
    let Ok(y) = b.bump_box::<Mixed>() else { return };
    let y = LeakBox::write(y, w);
    assert!(*x == v && *y == w, "P10 boxes hold their values");
    kani::cover!(true, "COVER values");
}

#[kani::proof]
#[kani::unwind(4)]
fn p10_layouts_not_needed() {
    // A request as large as a layout can be.
    let b = Bump::<[u8; 24]>::uninit();
    let l = Layout::from_size_align(isize::MAX as usize, 1).unwrap();
    assert!(b.alloc(l).is_none(), "P10 refuses what does not fit");
}
