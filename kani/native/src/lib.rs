//! Bounded stand-ins, run natively, for what the verifier's model of memory and panics cannot show: every object begins at a fully aligned
//! address there, and a panic ends the path. What is concluded from these holds for the inputs run only.
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Counts drops of numbered values. The value given to `panic_on` panics when dropped.
#[derive(Default)]
pub struct Drops {
    pub dropped: RefCell<Vec<usize>>,
    pub panic_on: Cell<Option<usize>>,
}

pub struct Value<'a>(pub &'a Drops, pub usize);

impl Drop for Value<'_> {
    fn drop(&mut self) {
        self.0.dropped.borrow_mut().push(self.1);
        if self.0.panic_on.get() == Some(self.1) {
            self.0.panic_on.set(None);
            panic!("as told");
        }
    }
}

impl Drops {
    pub fn of(&self, n: usize) -> usize {
        self.dropped.borrow().iter().filter(|x| **x == n).count()
    }
}

/// Whether it panics, quietly.
pub fn panics(f: impl FnOnce()) -> bool {
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| ()));
    let r = catch_unwind(AssertUnwindSafe(f)).is_err();
    std::panic::set_hook(hook);
    r
}

macro_rules! zero_sized_types {
    ($($name:ident $n:literal)*) => { $(#[repr(align($n))] #[derive(Clone, Copy)] pub struct $name;)* };
}
zero_sized_types!(Z1 1 Z2 2 Z4 4 Z8 8 Z16 16 Z32 32 Z64 64 Z128 128 Z256 256 Z512 512 Z1024 1024 Z4096 4096);

/// Run the macro for zero-sized types of all usual alignments.
#[macro_export]
macro_rules! zero_sized {
    ($with:ident) => {
        $with!(vnative::Z1); $with!(vnative::Z2); $with!(vnative::Z4); $with!(vnative::Z8); $with!(vnative::Z16); $with!(vnative::Z32);
        $with!(vnative::Z64); $with!(vnative::Z128); $with!(vnative::Z256); $with!(vnative::Z512); $with!(vnative::Z1024);
        $with!(vnative::Z4096);
    };
}

pub fn aligned<T>(p: *const T) {
    assert_eq!(p as usize % std::mem::align_of::<T>(), 0, "aligned for {}", std::any::type_name::<T>());
}
