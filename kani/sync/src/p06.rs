//! P06: the allocator interfaces of the synchronised allocator. A reallocation keeps the common
//! prefix, gives a region that satisfies the new request, and harms no other region; it fails
//! without an effect; a deallocation has no effect on anything else.
use crate::util::*;
use alloc_traits::{LocalAlloc, NonZeroLayout};
use core::alloc::{GlobalAlloc, Layout};
use core::mem;
use core::ptr::NonNull;
use static_alloc::Bump;
use vcommon::*;

type Mem = [u8; 24];
type Re = fn(&Bump<Mem>, *mut u8, Layout, Layout) -> Option<NonNull<u8>>;

fn global(b: &Bump<Mem>, p: *mut u8, old: Layout, new: Layout) -> Option<NonNull<u8>> {
    // The global interface does not change the alignment.
    NonNull::new(unsafe { GlobalAlloc::realloc(b, p, old, new.size()) })
}

fn local(b: &Bump<Mem>, p: *mut u8, old: Layout, new: Layout) -> Option<NonNull<u8>> {
    let new = NonZeroLayout::from_layout(new.into()).unwrap();
    let old = alloc_traits::Allocation {
        ptr: NonNull::new(p).unwrap(),
        layout: NonZeroLayout::from_layout(old.into()).unwrap(),
        lifetime: Default::default(),
    };
    unsafe { LocalAlloc::realloc(b, old, new) }.map(|a| {
        assert!(a.layout == new, "P06 reports the requested layout");
        a.ptr
    })
}

/// Every layout that can be allocated in a small memory at all.
fn small(max: usize) -> Layout {
    let l = any_nonempty_layout();
    kani::assume(l.size() <= max);
    l
}

fn realloc(re: Re, same_align: bool, victim_first: bool) {
    let b = &Bump::<Mem>::uninit();
    let v = NonNull::<u8>::dangling();
    let mut v = (v, 0usize);
    let mut put_victim = |b: &Bump<Mem>| {
        let l = small(4);
        if let Some(p) = b.alloc(l) {
            v = (p, l.size());
        }
    };
    if victim_first { put_victim(b) }
    let old = small(24);
    let Some(p) = b.alloc(old) else { return };
    if !victim_first { put_victim(b) }
    let new = any_nonempty_layout();
    if same_align {
        kani::assume(new.align() == old.align());
    }
    let (i, x): (usize, u8) = (kani::any(), kani::any());
    kani::assume(i < old.size());
    unsafe { p.as_ptr().add(i).write(x) };
    let before = b.level();

    let r = re(b, p.as_ptr(), old, new);

    if let Some(q) = r {
        let (qa, pa) = (q.as_ptr() as usize, p.as_ptr() as usize);
        let me = b as *const Bump<Mem> as usize;
        assert!(aligned(qa, new.align()), "P06 new alignment");
        assert!(inside(qa, new.size(), me, mem::size_of::<Bump<Mem>>()), "P06 inside the memory");
        let (va, vl) = (v.0.as_ptr() as usize, v.1);
        assert!(vl == 0 || qa + new.size() <= va || va + vl <= qa, "P06 no overlap with another region");
        if qa != pa {
            assert!(pa + old.size() <= qa || qa + new.size() <= pa, "P06 a moved region is disjoint from the old one");
        }
        if i < new.size() {
            assert!(unsafe { q.as_ptr().add(i).read() } == x, "P06 content is preserved");
            kani::cover!(qa != pa, "COVER moved with content");
        }
        // Everything handed out from now on stays clear of it.
        if let Some(n) = b.alloc(bytes(1)) {
            let na = n.as_ptr() as usize;
            assert!(na < qa || na >= qa + new.size(), "P06 not handed out again");
        }
    } else {
        assert!(b.level() == before, "P06 failure changes nothing");
        assert!(unsafe { p.as_ptr().add(i).read() } == x, "P06 failure keeps the old content");
        kani::cover!(true, "COVER failure");
    }
}

#[kani::proof]
#[kani::unwind(4)]
fn p06_global_realloc() { realloc(global, true, false) }
#[kani::proof]
#[kani::unwind(4)]
fn p06_global_realloc_before() { realloc(global, true, true) }
#[kani::proof]
#[kani::unwind(4)]
fn p06_local_realloc() { realloc(local, false, false) }
#[kani::proof]
#[kani::unwind(4)]
fn p06_local_realloc_before() { realloc(local, false, true) }

/// The other region keeps its content through a reallocation.
fn victim(re: Re) {
    let b = &Bump::<Mem>::uninit();
    let old = small(24);
    let Some(p) = b.alloc(old) else { return };
    let vl = small(4);
    let Some(v) = b.alloc(vl) else { return };
    let new = any_nonempty_layout();
    kani::assume(new.align() == old.align());
    let (j, y): (usize, u8) = (kani::any(), kani::any());
    kani::assume(j < vl.size());
    unsafe { v.as_ptr().add(j).write(y) };
    let r = re(b, p.as_ptr(), old, new);
    assert!(unsafe { v.as_ptr().add(j).read() } == y, "P06 other regions keep their content");
    kani::cover!(r.is_some(), "COVER success");
}
#[kani::proof]
#[kani::unwind(4)]
fn p06_global_victim() { victim(global) }
#[kani::proof]
#[kani::unwind(4)]
fn p06_local_victim() { victim(local) }

/// A reallocation of a size that is no valid layout fails.
#[kani::proof]
#[kani::unwind(4)]
fn p06_global_realloc_invalid() {
    let b = &Bump::<Mem>::uninit();
    let old = small(24);
    let Some(p) = b.alloc(old) else { return };
    let size: usize = kani::any();
    kani::assume(Layout::from_size_align(size, old.align()).is_err());
    let before = b.level();
    let r = unsafe { GlobalAlloc::realloc(b, p.as_ptr(), old, size) };
    assert!(r.is_null() && b.level() == before, "P06 impossible request refused");
    kani::cover!(true, "COVER invalid");
}

#[kani::proof]
#[kani::unwind(4)]
fn p06_dealloc() {
    let b = &Bump::<Mem>::uninit();
    let (l1, l2) = (small(24), small(24));
    let (Some(p), Some(q)) = (b.alloc(l1), b.alloc(l2)) else { return };
    let (i, x): (usize, u8) = (kani::any(), kani::any());
    kani::assume(i < l2.size());
    unsafe { q.as_ptr().add(i).write(x) };
    let before = b.level();
    if kani::any() {
        unsafe { GlobalAlloc::dealloc(b, p.as_ptr(), l1) };
    } else {
        let a = alloc_traits::Allocation {
            ptr: p,
            layout: NonZeroLayout::from_layout(l1.into()).unwrap(),
            lifetime: Default::default(),
        };
        unsafe { LocalAlloc::dealloc(b, a) };
    }
    assert!(b.level() >= before, "P06 no space of live regions is given back");
    assert!(unsafe { q.as_ptr().add(i).read() } == x, "P06 other regions keep their content");
    if let Some(n) = b.alloc(bytes(1)) {
        let (na, qa) = (n.as_ptr() as usize, q.as_ptr() as usize);
        assert!(na < qa || na >= qa + l2.size(), "P06 live regions are not handed out again");
    }
    kani::cover!(true, "COVER");
}
