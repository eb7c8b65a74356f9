//! P06, P07: the content of large regions, at fixed sizes (bounded). Looks at arbitrary bytes.
use alloc_traits::{LocalAlloc, NonZeroLayout};
use core::alloc::{GlobalAlloc, Layout};
use core::ptr::NonNull;
use static_alloc::Bump;

fn layout(size: usize) -> Layout {
    Layout::from_size_align(size, 8).unwrap()
}
fn local(size: usize) -> NonZeroLayout {
    NonZeroLayout::from_layout(layout(size).into()).unwrap()
}

fn moves(old: usize, new: usize, re: impl Fn(&Bump<[u64; 40]>, NonNull<u8>) -> Option<NonNull<u8>>) {
    let b = Bump::<[u64; 40]>::uninit();
    let p = b.alloc(layout(old)).unwrap();
    // Not the last allocation.
    let v = b.alloc(layout(8)).unwrap();
    let common = if old < new { old } else { new };
    let i: usize = if kani::any() { common - 1 } else { 70 };
    kani::assume(i < common);
    let x = 7;
    unsafe {
        v.as_ptr().write(9);
        p.as_ptr().add(i).write(x);
        let q = re(&b, p);
        assert!(q.is_some(), "P06 there is room");
        assert!(q.unwrap().as_ptr().add(i).read() == x, "P06 content is preserved");
        assert!(v.as_ptr().read() == 9, "P06 other regions keep their content");
    }
    kani::cover!(i > 128, "COVER");
}
#[kani::proof]
#[kani::unwind(4)]
fn p06_bulk_global_bounded() {
    moves(136, 144, |b, p| NonNull::new(unsafe { GlobalAlloc::realloc(b, p.as_ptr(), layout(136), 144) }))
}
#[kani::proof]
#[kani::unwind(4)]
fn p06_bulk_local_bounded() {
    moves(144, 136, |b, p| {
        let old = alloc_traits::Allocation { ptr: p, layout: local(144), lifetime: Default::default() };
        unsafe { LocalAlloc::realloc(b, old, local(136)) }.map(|a| a.ptr)
    })
}

fn zeroed(f: impl Fn(&Bump<[u64; 80]>) -> NonNull<u8>) {
    let b = Bump::<[u64; 80]>::uninit();
    let p = f(&b);
    let i: usize = kani::any();
    kani::assume(i < 520);
    assert!(unsafe { p.as_ptr().add(i).read() } == 0, "P07 zeroed");
    kani::cover!(i > 512, "COVER");
}
#[kani::proof]
#[kani::unwind(4)]
fn p07_bulk_global_bounded() {
    zeroed(|b| NonNull::new(unsafe { GlobalAlloc::alloc_zeroed(b, layout(520)) }).unwrap())
}
#[kani::proof]
#[kani::unwind(4)]
fn p07_bulk_local_bounded() {
    zeroed(|b| LocalAlloc::alloc_zeroed(b, local(520)).unwrap().ptr)
}
