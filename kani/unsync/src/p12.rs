//! P12: allocators over borrowed memory. Creation fails only without room for the bookkeeping,
//! works inside the buffer, starts empty; taking the memory back and wrapping it again restores
//! the allocator exactly.
use crate::util::*;
use core::alloc::Layout;
use core::mem::{self, MaybeUninit};
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::{Bump, MemBump};
use vcommon::*;

const HEADER: usize = mem::size_of::<usize>();

/// Bytes lost to the alignment of the bookkeeping.
fn lost(at: usize) -> usize {
    align_up(at, HEADER).unwrap() - at
}

fn from_mem(mem: &mut [MaybeUninit<u8>]) {
    let (at, len) = (mem.as_ptr() as usize, mem.len());
    let room = len >= lost(at) + HEADER;
    match MemBump::from_mem(mem) {
        Ok(b) => {
            assert!(room, "P12 needs room for the bookkeeping");
            let me = &*b as *const MemBump as *const u8 as usize;
            assert!(aligned(me, HEADER), "P12 aligned");
            assert!(inside(me, mem::size_of_val(&*b), at, len), "P12 inside the buffer");
            let data = b.data_ptr().as_ptr() as usize;
            assert!(inside(data, b.capacity(), at, len), "P12 memory inside the buffer");
            assert!(data >= me + HEADER, "P12 behind the bookkeeping");
            let usable = len - lost(at) - HEADER;
            assert!(b.capacity() <= usable && usable - b.capacity() < HEADER, "P12 uses the buffer up to rounding");
            assert!(b.level() == level_of(0), "P12 starts empty");
            kani::cover!(b.capacity() > 8 && lost(at) > 0, "COVER created");
        }
        Err(_) => {
            assert!(!room, "P12 fails only without room for the bookkeeping");
            kani::cover!(true, "COVER refused");
        }
    };
}

/// Any part of a small buffer; of memory of any size.
#[kani::proof]
#[kani::unwind(10)]
fn p12_from_mem() {
    from_mem(Buffer::<40>::new().any());
}
#[kani::proof]
#[kani::unwind(10)]
fn p12_from_long() {
    from_mem(Long::new().from(0));
}
#[kani::proof]
#[kani::unwind(10)]
fn p12_from_long_unaligned() {
    from_mem(Long::new().from(5));
}

/// Round trip through the memory.
#[kani::proof]
#[kani::unwind(10)]
fn p12_round_trip() {
    let mut buf = Buffer::<40>::new();
    let mem = buf.any();
    let (at, len) = (mem.as_ptr() as usize, mem.len());
    let Ok(b) = MemBump::from_mem(mem) else { return };
    round_trip(b, at, len);
}

#[kani::proof]
#[kani::unwind(10)]
fn p12_round_trip_long() {
    let mut buf = Long::new();
    let mem = buf.from(3);
    let (at, len) = (mem.as_ptr() as usize, mem.len());
    let Ok(b) = MemBump::from_mem(mem) else { return };
    round_trip(b, at, len);
}

fn round_trip(b: LeakBox<'_, MemBump>, at: usize, len: usize) {
    let c = raise(&b);
    let (cap, data) = (b.capacity(), b.data_ptr());
    let (i, x): (usize, u8) = (kani::any(), kani::any());
    kani::assume(i < c);
    unsafe { data.as_ptr().add(i).write(x) };
    let level = b.level();
    let mem = MemBump::into_mem(b);
    assert!(inside(mem.as_ptr() as usize, mem.len(), at, len), "P12 memory of the buffer comes back");
    let back = mem.as_ptr() as usize;
    let b = unsafe { MemBump::from_mem_unchecked(mem) };
    assert!(&*b as *const MemBump as *const u8 as usize == back, "P12 in the same place");
    assert!(b.capacity() == cap, "P12 same capacity");
    assert!(b.level() == level, "P12 same level");
    assert!(b.data_ptr() == data, "P12 same memory");
    assert!(unsafe { b.data_ptr().as_ptr().add(i).read() } == x, "P12 same content");
    // It goes on where it was.
    let l = any_nonempty_layout();
    if let Some(p) = b.alloc(l) {
        assert!(Some(p.as_ptr() as usize) == align_up(data.as_ptr() as usize + c, l.align()), "P12 goes on where it was");
        kani::cover!(true, "COVER goes on");
    }
}

/// An allocator that lives in other memory is an allocator, too.
#[kani::proof]
#[kani::unwind(10)]
fn p12_round_trip_owned() {
    let mut own = Bump::<[u8; 24]>::uninit();
    let at = &own as *const _ as usize;
    let len = mem::size_of_val(&own);
    let b = unsafe { LeakBox::from_mut_unchecked(&mut *own) };
    round_trip(b, at, len);
}

/// Wrapping memory with a new allocator makes all of it available again.
#[kani::proof]
#[kani::unwind(10)]
fn p12_reuse() {
    let mut buf = Buffer::<32>::new();
    let mem: &mut [MaybeUninit<u8>] = buf.any();
    let Ok(b) = MemBump::from_mem(mem) else { return };
    let cap = b.capacity();
    raise(&b);
    let mem = MemBump::into_mem(b);
    let Ok(b) = MemBump::from_mem(mem) else {
        assert!(false, "P12 the same memory can be wrapped again");
        return;
    };
    assert!(b.capacity() == cap && b.level() == level_of(0), "P12 all of it available again");
    kani::cover!(cap > 0, "COVER");
}

/// Heap allocators: the requested capacity, empty, and released without an error.
#[kani::proof]
#[kani::unwind(4)]
fn p12_heap() {
    let n: usize = kani::any();
    kani::assume(n < 1 << 46);
    let b = MemBump::new(n);
    assert!(b.capacity() == n, "P12 requested capacity");
    assert!(b.level() == level_of(0), "P12 starts empty");
    let layout = Layout::for_value(&*b);
    assert!(layout.size() >= n + HEADER, "P12 large enough");
    if n > 0 {
        let p = b.alloc(bytes(n));
        assert!(p.is_some(), "P12 all of it available");
        let i: usize = kani::any();
        kani::assume(i < n);
        unsafe { p.unwrap().as_ptr().add(i).write(1) };
        kani::cover!(true, "COVER");
    }
    assert!(b.alloc(bytes(1)).is_none(), "P12 and no more");
}

static mut WANT: usize = 0;
unsafe fn enough(layout: Layout) -> *mut u8 {
    assert!(layout.size() >= WANT, "P12 memory for the requested capacity");
    kani::cover!(layout.size() > 1 << 60, "cover requested");
    kani::assume(false);
    core::ptr::null_mut()
}

/// A capacity of any size is requested completely.
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(std::alloc::alloc, enough)]
#[kani::stub(std::alloc::alloc_zeroed, enough)]
fn p12_heap_requested() {
    let n: usize = kani::any();
    kani::assume(n < isize::MAX as usize - 64);
    unsafe { WANT = n };
    let _ = MemBump::new(n);
}
