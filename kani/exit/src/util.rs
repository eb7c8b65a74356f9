use core::mem::{self, MaybeUninit};
use core::pin::Pin;
use exit_stack::ExitStack;

pub const MAX: usize = 8;

/// What is observed of pinned values, by number: where each is, what it holds, and its drops.
pub static mut AT: [usize; MAX] = [0; MAX];
pub static mut HOLDS: [u64; MAX] = [0; MAX];
pub static mut DROPS: [u8; MAX] = [0; MAX];
/// Numbers in the order of drops.
pub static mut ORDER: [u8; MAX] = [0; MAX];
pub static mut COUNT: usize = 0;
/// A value was dropped elsewhere than pinned, or with other content.
pub static mut MOVED: bool = false;
pub static mut CHANGED: bool = false;

fn dropped(id: u8, at: usize, holds: u64) {
    let i = id as usize % MAX;
    unsafe {
        MOVED |= AT[i] != at;
        CHANGED |= HOLDS[i] != holds;
        DROPS[i] += 1;
        if COUNT < MAX {
            ORDER[COUNT] = id;
        }
        COUNT += 1;
    }
}

pub trait Value: 'static + Sized {
    fn make(id: u8, holds: u64) -> Self;
    fn id(&self) -> u8;
    fn holds(&self) -> u64;
}

macro_rules! value {
    ($(#[$a:meta])* $name:ident { $($pad:ty)? }) => {
        $(#[$a])*
        pub struct $name(u8, $($pad)?);
        impl Value for $name {
            fn make(id: u8, holds: u64) -> Self { $name(id, $(holds as $pad)?) }
            fn id(&self) -> u8 { self.0 }
            #[allow(unreachable_code)]
            fn holds(&self) -> u64 { $(return self.1 as $pad as u64;)? 0 }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                dropped(self.0, self as *const _ as usize, self.holds());
            }
        }
    };
}
value!(Small {});
value!(Wide { u64 });
value!(#[repr(align(16))] Over { u8 });

/// As `Small`, and without a destructor.
pub struct Plain(pub u8);

/// A value of no size; its number is always 7.
pub struct Nothing;
impl Value for Nothing {
    fn make(_: u8, _: u64) -> Self { Nothing }
    fn id(&self) -> u8 { 7 }
    fn holds(&self) -> u64 { 0 }
}
impl Drop for Nothing {
    fn drop(&mut self) {
        dropped(7, self as *const _ as usize, 0);
    }
}

/// Note a value after it was pinned.
pub fn pinned<T: Value>(value: Pin<&mut T>, id: u8, holds: u64) -> (usize, usize) {
    let at = &*value as *const T as usize;
    assert!(value.id() == id || value.id() == 7, "pinned value is the value");
    assert!(value.holds() == holds & T::make(id, u64::MAX).forget_holds(), "pinned value is the value");
    unsafe {
        AT[value.id() as usize] = at;
        HOLDS[value.id() as usize] = value.holds();
    }
    (at, mem::size_of::<T>())
}

pub trait ForgetHolds {
    fn forget_holds(self) -> u64;
}
impl<T: Value> ForgetHolds for T {
    fn forget_holds(self) -> u64 {
        let h = self.holds();
        mem::forget(self);
        h
    }
}

/// An exit stack in a place where its end can be observed.
pub struct Place<M>(MaybeUninit<ExitStack<M>>);

impl<M> Place<M> {
    pub fn new() -> Self {
        Place(MaybeUninit::new(ExitStack::new()))
    }
    pub fn stack(&self) -> Pin<&ExitStack<M>> {
        unsafe { Pin::new_unchecked(&*self.0.as_ptr()) }
    }
    pub fn stack_mut(&mut self) -> Pin<&mut ExitStack<M>> {
        unsafe { Pin::new_unchecked(&mut *self.0.as_mut_ptr()) }
    }
    pub fn range(&self) -> (usize, usize) {
        (self.0.as_ptr() as usize, mem::size_of::<ExitStack<M>>())
    }
    pub fn end(&mut self) {
        unsafe { core::ptr::drop_in_place(self.0.as_mut_ptr()) }
    }
}
