//! Shared vocabulary of the harness crates: symbolic inputs and specification predicates.
//!
//! Only compiled for Kani. Nothing in here mirrors code under /repo: these are the
//! generators of arbitrary inputs and the predicates the postconditions are phrased in.
#![cfg(kani)]
#![no_std]

use core::alloc::Layout;
use core::mem::MaybeUninit;

/// Every layout that `core::alloc::Layout` admits (any size, any power-of-two alignment).
pub fn any_layout() -> Layout {
    let size: usize = kani::any();
    let shift: u32 = kani::any();
    kani::assume(shift < usize::BITS);
    let layout = Layout::from_size_align(size, 1usize << shift);
    kani::assume(layout.is_ok());
    layout.unwrap()
}

/// Every layout of non-zero size.
pub fn any_nonempty_layout() -> Layout {
    let layout = any_layout();
    kani::assume(layout.size() > 0);
    layout
}

/// `addr` is a multiple of the power of two `align`.
pub fn aligned(addr: usize, align: usize) -> bool {
    addr & (align - 1) == 0
}

/// First multiple of `align` that is `>= addr`, or `None` if it is not representable.
pub fn align_up(addr: usize, align: usize) -> Option<usize> {
    let rest = addr & (align - 1);
    if rest == 0 { Some(addr) } else { addr.checked_add(align - rest) }
}

/// `[lo, lo+len)` lies inside `[base, base+cap)`, without wrapping.
pub fn inside(lo: usize, len: usize, base: usize, cap: usize) -> bool {
    lo >= base && lo - base <= cap && len <= cap - (lo - base)
}

/// Memory whose base is aligned to a page, to place things at chosen misalignments.
#[repr(C, align(4096))]
pub struct Arena<const N: usize>(pub [MaybeUninit<u8>; N]);

impl<const N: usize> Arena<N> {
    pub const fn new() -> Self {
        Arena([MaybeUninit::uninit(); N])
    }

    /// Write `val` at byte offset `at` and return a reference to it.
    pub fn place<T>(&mut self, at: usize, val: T) -> &mut T {
        assert!(at % core::mem::align_of::<T>() == 0);
        assert!(at + core::mem::size_of::<T>() <= N);
        unsafe {
            let ptr = (self.0.as_mut_ptr() as *mut u8).add(at) as *mut T;
            ptr.write(val);
            &mut *ptr
        }
    }
}

/// Whether a function succeeded.
pub trait Outcome {
    fn good(&self) -> bool;
}
impl<T> Outcome for Option<T> {
    fn good(&self) -> bool {
        self.is_some()
    }
}
impl<T, E> Outcome for Result<T, E> {
    fn good(&self) -> bool {
        self.is_ok()
    }
}
impl Outcome for () {
    fn good(&self) -> bool {
        true
    }
}
pub fn good<T: Outcome>(r: &T) -> bool {
    r.good()
}
