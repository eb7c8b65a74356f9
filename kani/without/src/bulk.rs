//! P22: copies larger than those with symbolic extent, at fixed sizes (bounded).
use alloc_traits::{Allocation, LocalAlloc, NonZeroLayout};
use core::cell::Cell;
use core::mem::{ManuallyDrop, MaybeUninit};
use core::ptr::NonNull;
use without_alloc::alloc::LocalAllocLeakExt;
use without_alloc::FixedVec;

const N: usize = 140;

/// Grants its memory once.
struct Once(Cell<MaybeUninit<[u64; 40]>>, Cell<bool>);
unsafe impl<'a> LocalAlloc<'a> for Once {
    fn alloc(&'a self, layout: NonZeroLayout) -> Option<Allocation<'a>> {
        if self.1.replace(true) {
            return None;
        }
        Some(Allocation { ptr: NonNull::new(self.0.as_ptr() as *mut u8).unwrap(), layout, lifetime: Default::default() })
    }
    unsafe fn dealloc(&'a self, _: Allocation<'a>) {}
}

fn once() -> Once {
    Once(Cell::new(MaybeUninit::uninit()), Cell::new(false))
}
fn source() -> ([u8; N], usize) {
    let (mut s, i) = ([b'a'; N], kani::any());
    kani::assume(i < N);
    s[i] = b'x';
    (s, i)
}

#[kani::proof]
#[kani::unwind(142)]
fn p22_bulk_slice_bounded() {
    let ((s, i), a) = (source(), once());
    let c = a.copy_slice(&s).unwrap();
    assert!(c.len() == N && c[i] == b'x', "P22 copies hold the elements in order");
    kani::cover!(i > 128, "COVER");
}
#[kani::proof]
#[kani::unwind(142)]
fn p22_bulk_dst_bounded() {
    let ((s, i), a) = (source(), once());
    let s = ManuallyDrop::new(s);
    let c = unsafe { a.copy_dst::<[u8]>(&*(&s as *const ManuallyDrop<[u8; N]> as *const ManuallyDrop<[u8; N]>) as &ManuallyDrop<[u8]>) }.unwrap();
    assert!(c.len() == N && c[i] == b'x', "P22 copies hold the elements in order");
    kani::cover!(i > 128, "COVER");
}
#[kani::proof]
#[kani::unwind(142)]
fn p22_bulk_str_bounded() {
    let ((s, i), a) = (source(), once());
    let c = a.copy_str(unsafe { core::str::from_utf8_unchecked(&s) }).unwrap();
    assert!(c.len() == N && c.as_bytes()[i] == b'x', "P22 copies hold the elements in order");
    kani::cover!(i > 128, "COVER");
}

const M: usize = 20;
fn filled(a: &Once) -> FixedVec<'_, u16> {
    let mut v = a.fixed_vec::<u16>(M).unwrap();
    for i in 0..M {
        assert!(v.push(i as u16).is_ok(), "P22 room for all elements");
    }
    v
}
fn holds(v: &FixedVec<'_, u16>, n: usize, f: impl Fn(usize) -> usize) {
    assert!(v.len() == n, "the length");
    for i in 0..n {
        assert!(v[i] as usize == f(i), "the elements in order");
    }
}

#[kani::proof]
#[kani::unwind(22)]
fn p17_bulk_bounded() {
    let a = once();
    let mut v = filled(&a);
    assert!(v.push(7) == Err(7), "P17 a full vector hands back");
    holds(&v, M, |i| i);
    for i in 0..3 {
        assert!(v.pop() == Some((M - 1 - i) as u16), "P17 the last element");
    }
    v.truncate(9);
    holds(&v, 9, |i| i);
    v.clear();
    assert!(v.pop() == None, "P17 cleared");
    kani::cover!(true, "COVER");
    core::mem::forget(v);
}
#[kani::proof]
#[kani::unwind(22)]
fn p19_bulk_split_bounded() {
    let a = once();
    let mut v = filled(&a);
    {
        let tail = v.split_borrowed(11);
        holds(&tail, M - 11, |i| 11 + i);
        core::mem::forget(tail);
    }
    let _ = a;
    kani::cover!(true, "COVER");
    core::mem::forget(v);
}
#[kani::proof]
#[kani::unwind(22)]
fn p18_bulk_drain_bounded() {
    let a = once();
    let mut v = filled(&a);
    {
        let mut d = v.drain(2..15);
        for i in 2..15 {
            assert!(d.next() == Some(i), "P18 drained in order");
        }
        assert!(d.next() == None, "P18 exactly the range");
    }
    holds(&v, M - 13, |i| if i < 2 { i } else { i + 13 });
    kani::cover!(true, "COVER");
    core::mem::forget(v);
}
#[kani::proof]
#[kani::unwind(24)]
fn p19_bulk_bounded() {
    let a = once();
    let mut v = a.fixed_vec::<u16>(M).unwrap();
    assert!(v.push(100).is_ok(), "P19");
    let tail = v.fill(0..(M as u16 + 1));
    assert!(tail.start == M as u16 - 1, "P19 takes what fits");
    holds(&v, M, |i| if i == 0 { 100 } else { i - 1 });
    kani::cover!(true, "COVER");
    core::mem::forget(v);
}
