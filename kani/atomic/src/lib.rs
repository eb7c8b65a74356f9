//! Atomic integers with an explicit environment, for rely-guarantee reasoning.
//!
//! `static-alloc` takes its atomics from a crate of this name under its own `polyfill` feature.
//! Each operation on the atomic is one step of the thread under verification. Before each step the
//! environment, any number of other threads, takes any number of steps. What those may do (the
//! rely) is what each step of the thread under verification is checked to do (the guarantee): the
//! value only ever rises, up to a limit, and the bytes between the old and the new value then
//! belong to the thread that made the step. Guarantee and rely being the same relation, any number
//! of threads running verified steps compose.
//!
//! The atomics behave sequentially consistent. There is a single atomic per allocator, and all
//! that the argument uses is the modification order of that one location.
#![no_std]
#![cfg(kani)]

use core::cell::UnsafeCell;
pub use core::sync::atomic::Ordering;

/// The ghost state.
pub mod ghost {
    /// Whether an environment is present.
    pub static mut ACTIVE: bool = false;
    /// The limit of the level.
    pub static mut LIMIT: usize = 0;
    /// The interval claimed by the steps of the thread under verification.
    pub static mut CLAIM: (usize, usize) = (0, 0);
    /// Number of steps by it that changed the value.
    pub static mut CHANGES: usize = 0;
    /// The interval claimed last by an environment step.
    pub static mut OTHER: (usize, usize) = (0, 0);
    /// Spurious failures that may still happen.
    pub static mut SPURIOUS: usize = 0;
    /// When scripted, the environment raises the value by one before this many steps, and then rests.
    pub static mut SCRIPT: Option<usize> = None;

    pub fn begin(limit: usize) {
        unsafe {
            ACTIVE = true;
            LIMIT = limit;
            CLAIM = (0, 0);
            CHANGES = 0;
            OTHER = (0, 0);
            SPURIOUS = 2;
            SCRIPT = None;
        }
    }
    pub fn end() {
        unsafe { ACTIVE = false }
    }
}

#[repr(transparent)]
pub struct AtomicUsize(UnsafeCell<usize>);

unsafe impl Sync for AtomicUsize {}

impl AtomicUsize {
    pub const fn new(val: usize) -> Self {
        AtomicUsize(UnsafeCell::new(val))
    }
    pub fn get_mut(&mut self) -> &mut usize {
        self.0.get_mut()
    }
    pub fn into_inner(self) -> usize {
        self.0.into_inner()
    }
    pub const fn as_ptr(&self) -> *mut usize {
        self.0.get()
    }

    /// Environment steps: the composition of any number of rises is one rise.
    fn environment(&self) -> usize {
        unsafe {
            let cur = *self.0.get();
            if let (true, Some(rises)) = (ghost::ACTIVE, ghost::SCRIPT) {
                if rises > 0 {
                    ghost::SCRIPT = Some(rises - 1);
                    *self.0.get() = cur + 1;
                }
                *self.0.get()
            } else if ghost::ACTIVE {
                let next: usize = kani::any();
                kani::assume(next >= cur && next <= ghost::LIMIT);
                if next > cur {
                    ghost::OTHER = (cur, next);
                }
                *self.0.get() = next;
                next
            } else {
                cur
            }
        }
    }

    /// A step of the thread under verification.
    fn step(&self, old: usize, new: usize) {
        unsafe {
            if ghost::ACTIVE && old != new {
                assert!(new > old, "GUARANTEE the level only rises");
                assert!(new <= ghost::LIMIT, "GUARANTEE the level stays within the memory");
                assert!(ghost::CHANGES == 0, "GUARANTEE one claim per operation");
                ghost::CHANGES += 1;
                ghost::CLAIM = (old, new);
            }
            *self.0.get() = new;
        }
    }

    pub fn load(&self, _: Ordering) -> usize {
        self.environment()
    }
    pub fn store(&self, val: usize, _: Ordering) {
        let old = self.environment();
        self.step(old, val)
    }
    pub fn swap(&self, val: usize, _: Ordering) -> usize {
        let old = self.environment();
        self.step(old, val);
        old
    }
    pub fn compare_exchange(&self, current: usize, new: usize, _: Ordering, _: Ordering) -> Result<usize, usize> {
        let old = self.environment();
        if old == current {
            self.step(old, new);
            Ok(old)
        } else {
            Err(old)
        }
    }
    pub fn compare_exchange_weak(&self, current: usize, new: usize, s: Ordering, f: Ordering) -> Result<usize, usize> {
        unsafe {
            if ghost::ACTIVE && ghost::SCRIPT.is_none() && ghost::SPURIOUS > 0 && kani::any() {
                ghost::SPURIOUS -= 1;
                return Err(self.environment());
            }
        }
        self.compare_exchange(current, new, s, f)
    }
    pub fn compare_and_swap(&self, current: usize, new: usize, o: Ordering) -> usize {
        match self.compare_exchange(current, new, o, o) {
            Ok(x) | Err(x) => x,
        }
    }
    fn rmw(&self, f: impl FnOnce(usize) -> usize) -> usize {
        let old = self.environment();
        self.step(old, f(old));
        old
    }
    pub fn fetch_add(&self, val: usize, _: Ordering) -> usize {
        self.rmw(|x| x.wrapping_add(val))
    }
    pub fn fetch_sub(&self, val: usize, _: Ordering) -> usize {
        self.rmw(|x| x.wrapping_sub(val))
    }
    pub fn fetch_max(&self, val: usize, _: Ordering) -> usize {
        self.rmw(|x| x.max(val))
    }
    pub fn fetch_min(&self, val: usize, _: Ordering) -> usize {
        self.rmw(|x| x.min(val))
    }
    pub fn fetch_and(&self, val: usize, _: Ordering) -> usize {
        self.rmw(|x| x & val)
    }
    pub fn fetch_or(&self, val: usize, _: Ordering) -> usize {
        self.rmw(|x| x | val)
    }
    pub fn fetch_xor(&self, val: usize, _: Ordering) -> usize {
        self.rmw(|x| x ^ val)
    }
    pub fn fetch_update<F: FnMut(usize) -> Option<usize>>(&self, s: Ordering, l: Ordering, mut f: F) -> Result<usize, usize> {
        let mut prev = self.load(l);
        while let Some(next) = f(prev) {
            match self.compare_exchange_weak(prev, next, s, l) {
                Ok(x) => return Ok(x),
                Err(x) => prev = x,
            }
        }
        Err(prev)
    }
}
