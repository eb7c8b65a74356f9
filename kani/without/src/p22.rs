//! P22: values and containers placed through any allocator.
use crate::util::*;
use alloc_traits::{AllocTime, Allocation, LocalAlloc, NonZeroLayout};
use core::cell::Cell;
use core::mem::{self, ManuallyDrop};
use core::ptr::NonNull;
use vcommon::*;
use without_alloc::alloc::LocalAllocLeakExt;
use without_alloc::boxed::Box;
use without_alloc::rc::Rc;

const N: usize = 48;

/// Any allocator: it may refuse, choose any suitable place, and grant more than was asked for.
pub struct Any {
    memory: Cell<*mut u8>,
    /// How often it was asked, with which layout last, and what it granted last.
    asked: Cell<usize>,
    size: Cell<usize>,
    align: Cell<usize>,
    gave: Cell<Extent>,
    refused: Cell<bool>,
    room: usize,
    align_limit: usize,
    /// Only grant from the start of the memory on.
    low: bool,
}

impl Any {
    fn new(buf: &mut Buffer<N>) -> Self {
        Any {
            memory: Cell::new(buf.0.as_mut_ptr() as *mut u8),
            asked: Cell::new(0),
            size: Cell::new(0),
            align: Cell::new(0),
            gave: Cell::new(Extent(0, 0)),
            refused: Cell::new(false),
            room: N,
            align_limit: 32,
            low: false,
        }
    }
    /// With memory without bounds.
    fn large() -> Self {
        let n: usize = kani::any();
        kani::assume(n > 0 && n < 1 << 46);
        let mut a = Any::new(&mut Buffer::<N>::new());
        a.memory.set(unsafe { std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n, 4096)) });
        a.room = n;
        a.align_limit = 4096;
        a
    }
    /// `[at, at+len)` may be used: this was granted by the one request made, or there is nothing to use.
    fn granted(&self, at: usize, len: usize) -> bool {
        let g = self.gave.get();
        len == 0 || self.asked.get() == 1 && !self.refused.get() && inside(at, len, g.0, g.1)
    }
    /// A request failed as it must: the allocator was asked, and refused.
    fn failed(&self) -> bool {
        self.asked.get() == 1 && self.refused.get()
    }
}

unsafe impl<'a> LocalAlloc<'a> for Any {
    fn alloc(&'a self, layout: NonZeroLayout) -> Option<Allocation<'a>> {
        let (size, align) = (usize::from(layout.size()), layout.align());
        self.asked.set(self.asked.get() + 1);
        self.size.set(size);
        self.align.set(align);
        let (o, g): (usize, usize) = (if self.low { 0 } else { kani::any() }, kani::any());
        if size > self.room || o > self.room || g < size || g > self.room - o || o & (align - 1) != 0 || align > self.align_limit {
            self.refused.set(true);
            return None;
        }
        let ptr = unsafe { self.memory.get().add(o) };
        self.gave.set(Extent(ptr as usize, g));
        let granted = core::alloc::Layout::from_size_align(g, align).unwrap();
        Some(Allocation {
            ptr: NonNull::new(ptr).unwrap(),
            layout: NonZeroLayout::from_layout(granted.into()).unwrap(),
            lifetime: AllocTime::default(),
        })
    }
    unsafe fn dealloc(&'a self, _: Allocation<'a>) {
        panic!("P22 nothing is given back");
    }
}

macro_rules! any {
    ($buf:ident, $a:ident) => {
        let mut $buf = Buffer::<N>::new();
        let $a = Any::new(&mut $buf);
    };
}

#[kani::proof]
#[kani::unwind(4)]
fn p22_layout() {
    any!(buf, a);
    let layout = any_nonempty_layout();
    match a.alloc_layout(NonZeroLayout::from_layout(layout.into()).unwrap()) {
        Some(leaked) => {
            assert!(a.asked.get() == 1 && !a.refused.get(), "P22 asked once");
            assert!(a.size.get() >= layout.size() && a.align.get() >= layout.align(), "P22 asked for enough");
            let e = leaked.uninit.extent();
            assert!(a.granted(e.0, e.1) && e.1 >= layout.size(), "P22 memory from the allocator");
            assert!(aligned(e.0, layout.align()), "P22 aligned");
            kani::cover!(e.1 > layout.size(), "COVER more than asked for");
        }
        None => assert!(a.failed(), "P22 fails only if the allocator does"),
    };
}

macro_rules! values {
    ($($t:ty: $typed:ident, $boxed:ident, $rc:ident, $vec:ident, $slice:ident;)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $typed() {
            any!(buf, a);
            match a.alloc_t::<$t>() {
                Some(leaked) => {
                    let e = leaked.uninit.extent();
                    assert!(a.granted(e.0, e.1) && e.1 >= mem::size_of::<$t>(), "P22 memory from the allocator");
                    let x: $t = kani::any();
                    let r = leaked.uninit.init(x);
                    assert!(aligned(r as *mut $t as usize, mem::align_of::<$t>()) && *r == x, "P22 good for the value");
                    kani::cover!(true, "COVER");
                }
                None => assert!(a.failed(), "P22 fails only if the allocator does"),
            };
        }
        #[kani::proof]
        #[kani::unwind(4)]
        fn $boxed() {
            any!(buf, a);
            let x: $t = kani::any();
            match a.boxed(x) {
                Some(b) => {
                    let at = &*b as *const $t as usize;
                    assert!(*b == x, "P22 shows the value");
                    assert!(a.granted(at, mem::size_of::<$t>()), "P22 memory from the allocator");
                    assert!(aligned(at, mem::align_of::<$t>()), "P22 aligned");
                    kani::cover!(true, "COVER");
                }
                None => assert!(a.failed(), "P22 fails only if the allocator does"),
            };
        }
        #[kani::proof]
        #[kani::unwind(4)]
        fn $rc() {
            any!(buf, a);
            let x: $t = kani::any();
            match a.rc(x) {
                Some(rc) => {
                    let at = &*rc as *const $t as usize;
                    assert!(*rc == x && Rc::strong_count(&rc) == 1 && Rc::weak_count(&rc) == 1, "P22 shows the value");
                    assert!(a.granted(at, mem::size_of::<$t>()), "P22 memory from the allocator");
                    assert!(aligned(at, mem::align_of::<$t>()), "P22 aligned");
                    let weak = Rc::downgrade(&rc);
                    drop(rc);
                    let e = weak.try_unwrap().ok().unwrap().extent();
                    assert!(e.1 > 0 && a.granted(e.0, e.1), "P22 counters in memory from the allocator");
                    kani::cover!(true, "COVER");
                }
                None => assert!(a.failed(), "P22 fails only if the allocator does"),
            };
        }
        #[kani::proof]
        #[kani::unwind(4)]
        fn $vec() {
            any!(buf, a);
            let n: usize = kani::any();
            match a.fixed_vec::<$t>(n) {
                Some(mut v) => {
                    assert!(v.is_empty() && v.capacity() >= n, "P22 room for all elements");
                    let size = mem::size_of::<$t>();
                    let cap = v.capacity();
                    assert!(size == 0 || a.granted(v.as_ptr() as usize, cap * size), "P22 memory from the allocator");
                    assert!(aligned(v.as_ptr() as usize, mem::align_of::<$t>()), "P22 aligned");
                    let x: $t = kani::any();
                    if v.push(x).is_ok() {
                        assert!(v[0] == x, "P22 good for values");
                        kani::cover!(n > 0, "COVER");
                    } else {
                        assert!(n == 0, "P22 room for all elements");
                    }
                }
                None => {
                    let none = mem::size_of::<$t>().checked_mul(n).map_or(true, |s| s > isize::MAX as usize - mem::align_of::<$t>());
                    assert!(a.failed() || none, "P22 fails only if the allocator does, or impossible");
                    assert!(a.failed() || a.asked.get() == 0, "P22 fails only if the allocator does, or impossible");
                }
            };
        }
        #[kani::proof]
        #[kani::unwind(4)]
        fn $slice() {
            any!(buf, a);
            let src: [$t; 4] = [kani::any(), kani::any(), kani::any(), kani::any()];
            let n: usize = kani::any();
            kani::assume(n <= 4);
            match a.copy_slice(&src[..n]) {
                Some(s) => {
                    assert!(s.len() == n, "P22 exactly the elements");
                    let at = s.as_ptr() as usize;
                    assert!(a.granted(at, n * mem::size_of::<$t>()), "P22 memory from the allocator");
                    assert!(aligned(at, mem::align_of::<$t>()), "P22 aligned");
                    let i: usize = kani::any();
                    kani::assume(i < n);
                    assert!(s[i] == src[i], "P22 copied in order");
                    s[i] = src[0];
                    assert!(s[i] == src[0], "P22 writable");
                    kani::cover!(n == 2, "COVER");
                }
                None => assert!(a.failed(), "P22 fails only if the allocator does"),
            };
        }
    )*};
}
values! {
    u8: p22_typed_u8, p22_boxed_u8, p22_rc_u8, p22_vec_u8, p22_slice_u8;
    u32: p22_typed_u32, p22_boxed_u32, p22_rc_u32, p22_vec_u32, p22_slice_u32;
    Three: p22_typed_three, p22_boxed_three, p22_rc_three, p22_vec_three, p22_slice_three;
    u128: p22_typed_u128, p22_boxed_u128, p22_rc_u128, p22_vec_u128, p22_slice_u128;
    (): p22_typed_unit, p22_boxed_unit, p22_rc_unit, p22_vec_unit, p22_slice_unit;
}

/// Longer copies.
macro_rules! long_copy {
    ($($name:ident: $t:ty, $max:expr;)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let bump = static_alloc::Bump::<[u64; 8]>::zeroed();
            let src: [$t; $max] = kani::any();
            let n: usize = kani::any();
            kani::assume(n <= $max);
            let Some(s) = bump.copy_slice(&src[..n]) else { panic!("P22 there is room") };
            assert!(s.len() == n, "P22 exactly the elements");
            let i: usize = kani::any();
            kani::assume(i < n);
            assert!(s[i] == src[i], "P22 copied in order");
            kani::cover!(i == $max - 1, "COVER");
        }
    )*};
}
long_copy! {
    p22_long_copy_u8: u8, 40;
    p22_long_copy_u16: u16, 20;
    p22_long_copy_u64: u64, 6;
}

/// Requests and grants of any size.
#[kani::proof]
#[kani::unwind(4)]
fn p22_large_layout() {
    let a = Any::large();
    let layout = any_nonempty_layout();
    match a.alloc_layout(NonZeroLayout::from_layout(layout.into()).unwrap()) {
        Some(leaked) => {
            assert!(a.asked.get() == 1 && !a.refused.get(), "P22 asked once");
            let e = leaked.uninit.extent();
            assert!(a.granted(e.0, e.1) && e.1 >= layout.size(), "P22 memory from the allocator");
            assert!(aligned(e.0, layout.align()), "P22 aligned");
            kani::cover!(e.1 > layout.size() && layout.size() > 1 << 40, "COVER more than asked for");
        }
        None => assert!(a.failed(), "P22 fails only if the allocator does"),
    };
}

macro_rules! large {
    ($($t:ty: $vec:ident, $boxed:ident;)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $vec() {
            let mut a = Any::large();
            a.low = true;
            let n: usize = kani::any();
            match a.fixed_vec::<$t>(n) {
                Some(mut v) => {
                    assert!(v.is_empty() && v.capacity() >= n, "P22 room for all elements");
                    let size = mem::size_of::<$t>();
                    assert!(a.granted(v.as_ptr() as usize, v.capacity() * size), "P22 memory from the allocator");
                    assert!(aligned(v.as_ptr() as usize, mem::align_of::<$t>()), "P22 aligned");
                    kani::cover!(n > 1 << 33, "COVER");
                    mem::forget(v);
                }
                None => assert!(a.failed() || a.asked.get() == 0, "P22 fails only if the allocator does, or impossible"),
            };
        }
        #[kani::proof]
        #[kani::unwind(4)]
        fn $boxed() {
            let mut a = Any::large();
            a.low = true;
            let x: $t = kani::any();
            match a.boxed(x) {
                Some(b) => {
                    assert!(*b == x, "P22 shows the value");
                    let e = Box::into_raw(b).extent();
                    assert!(a.granted(e.0, e.1) && e.1 >= mem::size_of::<$t>(), "P22 memory from the allocator");
                    kani::cover!(e.1 > 1 << 33, "COVER");
                }
                None => assert!(a.failed(), "P22 fails only if the allocator does"),
            };
        }
    )*};
}
large! {
    u8: p22_large_vec_u8, p22_large_box_u8;
    u32: p22_large_vec_u32, p22_large_box_u32;
    u128: p22_large_vec_u128, p22_large_box_u128;
    Wide: p22_large_vec_wide, p22_large_box_wide;
}

/// Text of any content.
#[kani::proof]
#[kani::unwind(6)]
fn p22_str() {
    any!(buf, a);
    let bytes: [u8; 4] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 4 && bytes[0] < 128 && bytes[1] < 128 && bytes[2] < 128 && bytes[3] < 128);
    let text = unsafe { core::str::from_utf8_unchecked(&bytes[..n]) };
    match a.copy_str(text) {
        Some(s) => {
            assert!(s.len() == n, "P22 exactly the text");
            assert!(a.granted(s.as_ptr() as usize, n), "P22 memory from the allocator");
            let i: usize = kani::any();
            kani::assume(i < n);
            assert!(s.as_bytes()[i] == bytes[i], "P22 copied in order");
            kani::cover!(n == 4, "COVER");
        }
        None => assert!(a.failed(), "P22 fails only if the allocator does"),
    };
}

macro_rules! dst {
    ($($name:ident: $t:ty, $make:expr, |$v:ident| $look:expr, $vary:expr;)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            trait Look {
                fn look(&self) -> u32;
                fn vary(&mut self);
            }
            impl Look for $t {
                fn look(&self) -> u32 { let $v = self; $look }
                fn vary(&mut self) { let $v = self; $vary }
            }
            let mut buf = Buffer::<N>::new();
            let mut a = Any::new(&mut buf);
            a.room = 8;
            let val = ManuallyDrop::<$t>::new($make);
            let (is, size, align) = ((*val).look(), mem::size_of::<$t>(), mem::align_of::<$t>());
            let r: &ManuallyDrop<dyn Look> = &val;
            match unsafe { a.copy_dst::<dyn Look>(r) } {
                Some(d) => {
                    assert!(mem::size_of_val(d) == size && mem::align_of_val(d) == align, "P22 the same type");
                    let at = d as *mut dyn Look as *mut u8 as usize;
                    assert!(a.granted(at, size), "P22 memory from the allocator");
                    assert!(aligned(at, align), "P22 aligned");
                    assert!(d.look() == is, "P22 the same value");
                    d.vary();
                    assert!((*val).look() == is, "P22 independent of the source");
                    assert!(size == 0 || d.look() != is, "P22 writable");
                    kani::cover!(true, "COVER");
                }
                None => assert!(a.failed(), "P22 fails only if the allocator does"),
            };
        }
    )*};
}
dst! {
    p22_dst_u8: u8, kani::any(), |v| *v as u32, *v ^= 1;
    p22_dst_u32: u32, kani::any(), |v| *v, *v ^= 1;
    p22_dst_mixed: Mixed, kani::any(), |v| v.1 ^ v.0 as u32, v.1 ^= 1;
    p22_dst_zst: ZstOver, ZstOver, |v| v as *const _ as usize as u32 & 7, { let _ = v; };
}

#[kani::proof]
#[kani::unwind(4)]
fn p22_dst_slice() {
    any!(buf, a);
    let src: [u16; 4] = [kani::any(), kani::any(), kani::any(), kani::any()];
    let n: usize = kani::any();
    kani::assume(n <= 4);
    let slice: &[u16] = &src[..n];
    let slice: &ManuallyDrop<[u16]> = unsafe { mem::transmute(slice) };
    match unsafe { a.copy_dst::<[u16]>(slice) } {
        Some(s) => {
            assert!(s.len() == n, "P22 exactly the elements");
            let at = s.as_ptr() as usize;
            assert!(a.granted(at, 2 * n) && aligned(at, 2), "P22 memory from the allocator");
            let i: usize = kani::any();
            kani::assume(i < n);
            assert!(s[i] == src[i], "P22 copied in order");
            kani::cover!(n == 4, "COVER");
        }
        None => assert!(a.failed(), "P22 fails only if the allocator does"),
    };
}

/// What becomes of a value in either case.
#[kani::proof]
#[kani::unwind(4)]
fn p22_drops() {
    any!(buf, a);
    let drops = &Drops::new();
    let shared: bool = kani::any();
    let (some, place) = if shared {
        let rc = a.rc(drops.make(1));
        let some = rc.is_some();
        assert!(drops.of(1) == !some as u8, "P22 a value that does not fit is dropped once");
        (some, drop(rc))
    } else {
        let b = a.boxed(drops.make(1));
        let some = b.is_some();
        assert!(drops.of(1) == !some as u8, "P22 a value that does not fit is dropped once");
        (some, drop(b))
    };
    let _ = place;
    assert!(drops.of(1) == 1, "P22 each value is dropped once");
    kani::cover!(some, "COVER placed");
    kani::cover!(!some, "COVER refused");
}

/// Two values in the allocator of this project, at any level.
#[kani::proof]
#[kani::unwind(4)]
fn p22_bump() {
    let bump = static_alloc::Bump::<[u8; 40]>::uninit();
    let (lo, hi) = (&bump as *const _ as usize, &bump as *const _ as usize + mem::size_of_val(&bump));
    let skip: usize = kani::any();
    kani::assume(skip > 0 && skip < 64);
    let _ = bump.get_layout(core::alloc::Layout::from_size_align(skip, 1).unwrap());
    let (x, y): (u16, u32) = (kani::any(), kani::any());
    let b = bump.boxed(x);
    let s = bump.copy_slice(&[y, 5]);
    if let (Some(b), Some(s)) = (b, s) {
        assert!(*b == x && s.len() == 2 && s[0] == y && s[1] == 5, "P22 shows the values");
        let (p, q) = (&*b as *const u16 as usize, s.as_ptr() as usize);
        assert!(inside(p, 2, lo, hi - lo) && inside(q, 8, lo, hi - lo) && (p + 2 <= q || q + 8 <= p), "P22 separate");
        s[1] = 6;
        assert!(*b == x, "P22 separate");
        let leaked = Box::leak(b);
        *leaked = 3;
        assert!(s[0] == y && s[1] == 6, "P22 separate");
        kani::cover!(skip > 3, "COVER");
    };
}

/// A value of no size needs no memory, but has a destructor all the same.
#[kani::proof]
#[kani::unwind(4)]
fn p22_drops_no_size() {
    any!(buf, a);
    let dropped = || unsafe { ZST_DROPS };
    if kani::any() {
        match a.rc(ZstTracked) {
            Some(rc) => {
                assert!(dropped() == 0, "P22 not dropped while owned");
                let other = Rc::clone(&rc);
                drop(rc);
                assert!(dropped() == 0, "P22 not dropped while owned");
                drop(other);
                kani::cover!(true, "COVER shared");
            }
            None => assert!(a.failed(), "P22 fails only if the allocator does"),
        }
    } else {
        let Some(b) = a.boxed(ZstTracked) else { panic!("P22 no memory is needed") };
        assert!(dropped() == 0, "P22 not dropped while owned");
        drop(b);
    }
    assert!(dropped() == 1, "P22 each value is dropped once");
}
