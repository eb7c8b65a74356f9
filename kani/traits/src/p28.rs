//! P28: layouts, and what the allocator interface provides on top of an allocator.
use alloc_traits::{AllocTime, Allocation, Layout, LocalAlloc, NonZeroLayout};
use core::alloc::Layout as Core;
use core::cell::Cell;
use core::convert::TryFrom;
use core::mem;
use core::ptr::NonNull;
use vcommon::*;

/// Any layout, empty ones too.
fn layout() -> Core {
    let (size, align): (usize, usize) = (kani::any(), kani::any());
    match Core::from_size_align(size, align) {
        Ok(layout) => layout,
        Err(_) => {
            kani::assume(false);
            unreachable!()
        }
    }
}

/// Conversion never changes a layout, and a layout is nonempty exactly if it is not empty.
#[kani::proof]
#[kani::unwind(2)]
fn p28_layouts() {
    let is = layout();
    let l = Layout::from(is);
    assert!(l.size() == is.size() && l.align() == is.align(), "P28 same layout");
    assert!(Core::from(l) == is && l == l.clone(), "P28 same layout");
    let (a, b, c) = (NonZeroLayout::from_layout(l), NonZeroLayout::try_from(l), NonZeroLayout::try_from(is));
    assert!(a.is_some() == (is.size() != 0), "P28 empty exactly if the size is zero");
    assert!(b.is_ok() == (is.size() != 0), "P28 empty exactly if the size is zero");
    assert!(c.is_ok() == (is.size() != 0), "P28 empty exactly if the size is zero");
    if let (Some(a), Ok(b), Ok(c)) = (a, b, c) {
        assert!(a.size().get() == is.size() && a.align() == is.align() && Core::from(a) == is, "P28 same layout");
        assert!(b.size().get() == is.size() && b.align() == is.align() && Core::from(b) == is, "P28 same layout");
        assert!(c.size().get() == is.size() && c.align() == is.align() && Core::from(c) == is, "P28 same layout");
        assert!(a == b && b == c, "P28 same layout");
        kani::cover!(is.align() > 4096, "COVER");
    } else {
        kani::cover!(is.size() == 0, "COVER empty");
    }
    let other = layout();
    assert!((Layout::from(other) == l) == (other == is), "P28 layouts compare by size and alignment");
    if let (Some(a), Some(b)) = (a, NonZeroLayout::from_layout(other.into())) {
        assert!((a == b) == (other == is), "P28 layouts compare by size and alignment");
    }
}

macro_rules! types {
    ($($t:ty),*) => {$({
        let l = Layout::new::<$t>();
        assert!(l.size() == mem::size_of::<$t>() && l.align() == mem::align_of::<$t>(), "P28 layout of a type");
        match NonZeroLayout::new::<$t>() {
            None => assert!(mem::size_of::<$t>() == 0, "P28 empty exactly if the size is zero"),
            Some(n) => {
                assert!(n.size().get() == mem::size_of::<$t>(), "P28 layout of a type");
                assert!(n.align() == mem::align_of::<$t>(), "P28 layout of a type");
            }
        }
        kani::cover!(true, "COVER");
    })*};
}
#[repr(align(64))]
struct Wide;
#[repr(align(4096))]
#[allow(dead_code)]
struct Page(u8);
#[repr(C)]
#[allow(dead_code)]
struct Mixed(u8, u64, u16);

#[kani::proof]
#[kani::unwind(2)]
fn p28_types() {
    types!(u8, u16, u32, u64, u128, (), [u64; 0], [u8; 3], [u16; 33], Wide, Page, Mixed, &'static str, Option<u8>, [u8; 1 << 40]);
}

const N: usize = 20;

/// Any allocator that provides the required operations only. It may refuse, choose any suitable place that is not the
/// one in use, and grant more than was asked for.
struct Any {
    memory: Cell<*mut u8>,
    /// What is in use already: the first part of the memory.
    used: usize,
    asked: Cell<usize>,
    wants: Cell<Option<NonZeroLayout>>,
    gave: Cell<Option<Allocation<'static>>>,
    back: Cell<usize>,
    /// What was given back last.
    got: Cell<Option<Allocation<'static>>>,
}

unsafe fn forever(a: Allocation<'_>) -> Allocation<'static> {
    Allocation { ptr: a.ptr, layout: a.layout, lifetime: AllocTime::default() }
}

fn allocation<'a>(ptr: *mut u8, size: usize, align: usize) -> Allocation<'a> {
    Allocation {
        ptr: NonNull::new(ptr).unwrap(),
        layout: NonZeroLayout::from_layout(Core::from_size_align(size, align).unwrap().into()).unwrap(),
        lifetime: AllocTime::default(),
    }
}

unsafe impl<'a> LocalAlloc<'a> for Any {
    fn alloc(&'a self, layout: NonZeroLayout) -> Option<Allocation<'a>> {
        let (size, align) = (usize::from(layout.size()), layout.align());
        self.asked.set(self.asked.get() + 1);
        self.wants.set(Some(layout));
        let (o, g): (usize, usize) = (kani::any(), kani::any());
        if size > N || o > N || o < self.used || g < size || g > N - o || align > 64 {
            return None;
        }
        let ptr = unsafe { self.memory.get().add(o) };
        if !aligned(ptr as usize, align) {
            return None;
        }
        self.gave.set(Some(allocation(ptr, g, align)));
        Some(allocation(ptr, g, align))
    }
    unsafe fn dealloc(&'a self, a: Allocation<'a>) {
        self.back.set(self.back.get() + 1);
        self.got.set(Some(forever(a)));
        // The memory may be used for anything from now on.
        let i: usize = kani::any();
        kani::assume(i < a.layout.size().get());
        *a.ptr.as_ptr().add(i) = kani::any();
    }
}

fn any(memory: *mut [u8; N], used: usize) -> Any {
    Any {
        memory: Cell::new(memory as *mut u8),
        used,
        asked: Cell::new(0),
        wants: Cell::new(None),
        gave: Cell::new(None),
        back: Cell::new(0),
        got: Cell::new(None),
    }
}

fn nonzero() -> NonZeroLayout {
    let l = layout();
    kani::assume(l.size() > 0);
    NonZeroLayout::from_layout(l.into()).unwrap()
}

/// All of what the allocator granted is zero, and nothing else is written.
fn zeroed(memory: [u8; N], f: impl Fn(&'static Any, NonZeroLayout) -> Option<Allocation<'static>>) {
    let mut now = memory;
    let a = any(&mut now, 0);
    let l = nonzero();
    let got = f(unsafe { &*(&a as *const Any) }, l);
    assert!(a.asked.get() == 1 && a.wants.get() == Some(l), "P28 asked for the memory once");
    assert!(a.back.get() == 0, "P28 nothing is given back");
    assert!(got == a.gave.get(), "P28 the allocation of the allocator, or none");
    let i: usize = kani::any();
    kani::assume(i < N);
    let byte = unsafe { *(&now as *const [u8; N] as *const u8).add(i) };
    if let Some(g) = got {
        let at = g.ptr.as_ptr() as usize - &now as *const _ as usize;
        let within = i >= at && i - at < g.layout.size().get();
        assert!(!within || byte == 0, "P28 zero, all of it");
        assert!(within || byte == memory[i], "P28 nothing else is written");
        kani::cover!(within && g.layout.size() > l.size(), "COVER more than asked for");
    } else {
        assert!(byte == memory[i], "P28 nothing is written");
        kani::cover!(true, "COVER refused");
    }
}

#[kani::proof]
#[kani::unwind(22)]
fn p28_zeroed() {
    zeroed(kani::any(), |a, l| a.alloc_zeroed(l));
}

/// The documented function behind it, also through a trait object.
#[kani::proof]
#[kani::unwind(22)]
fn p28_zeroed_default() {
    zeroed(kani::any(), |a, l| alloc_traits::util::defaults::local::alloc_zeroed(a, l));
}

#[kani::proof]
#[kani::unwind(22)]
fn p28_zeroed_object() {
    zeroed(kani::any(), |a, l| alloc_traits::util::defaults::local::alloc_zeroed(a as &'static dyn LocalAlloc<'static>, l));
}

/// The content moves into a new allocation, and the old one is given back after that.
fn moves(memory: [u8; N], f: impl Fn(&'static Any, Allocation<'static>, NonZeroLayout) -> Option<Allocation<'static>>) {
    let mut now = memory;
    // The old allocation: somewhere in the first half.
    let (o, s): (usize, usize) = (kani::any(), kani::any());
    kani::assume(o <= 9 && s >= 1 && s <= 9 - o);
    let shift: u32 = kani::any();
    kani::assume(shift < 5);
    let base = &mut now as *mut [u8; N] as *mut u8;
    let ptr = unsafe { base.add(o) };
    kani::assume(aligned(ptr as usize, 1 << shift));
    let old = allocation(ptr, s, 1 << shift);
    let a = any(&mut now, 9);
    let l = nonzero();
    let got = f(unsafe { &*(&a as *const Any) }, old, l);
    assert!(a.asked.get() == 1 && a.wants.get() == Some(l), "P28 asked for the memory once");
    assert!(got == a.gave.get(), "P28 the allocation of the allocator, or none");
    let i: usize = kani::any();
    kani::assume(i < N);
    let byte = |i: usize| unsafe { *(base as *const u8).add(i) };
    if let Some(g) = got {
        assert!(a.back.get() == 1 && a.got.get() == Some(old), "P28 the old memory is given back once");
        if i < s && i < l.size().get() {
            assert!(unsafe { *g.ptr.as_ptr().add(i) } == memory[o + i], "P28 content is kept");
            kani::cover!(i > 0 && l.size().get() > s, "COVER grows");
            kani::cover!(i > 0 && l.size().get() < s, "COVER shrinks");
        }
        let at = g.ptr.as_ptr() as usize - base as usize;
        let within = i >= at && i - at < g.layout.size().get() || i >= o && i - o < s;
        assert!(within || byte(i) == memory[i], "P28 nothing else is written");
    } else {
        assert!(a.back.get() == 0, "P28 the old memory is kept");
        assert!(byte(i) == memory[i], "P28 nothing is written");
        kani::cover!(true, "COVER refused");
    }
}

#[kani::proof]
#[kani::unwind(22)]
fn p28_realloc() {
    moves(kani::any(), |a, old, l| unsafe { a.realloc(old, l) });
}

#[kani::proof]
#[kani::unwind(22)]
fn p28_realloc_default() {
    moves(kani::any(), |a, old, l| unsafe { alloc_traits::util::defaults::local::realloc(a, old, l) });
}

#[kani::proof]
#[kani::unwind(22)]
fn p28_realloc_object() {
    moves(kani::any(), |a, old, l| unsafe {
        alloc_traits::util::defaults::local::realloc(a as &'static dyn LocalAlloc<'static>, old, l)
    });
}
