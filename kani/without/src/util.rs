use core::mem::MaybeUninit;
use core::ptr::NonNull;
use without_alloc::uninit::UninitView;
use without_alloc::Uninit;

/// Memory to describe as uninitialized.
#[repr(C, align(32))]
pub struct Buffer<const N: usize>(pub [MaybeUninit<u8>; N]);

impl<const N: usize> Buffer<N> {
    pub fn new() -> Self {
        Buffer([MaybeUninit::uninit(); N])
    }
    /// Any part of it: any alignment up to 32, any length.
    pub fn any(&mut self) -> Uninit<'_, ()> {
        let (o, l): (usize, usize) = (kani::any(), kani::any());
        kani::assume(o <= N && l <= N - o);
        let p = unsafe { (self.0.as_mut_ptr() as *mut u8).add(o) };
        unsafe { Uninit::from_memory(NonNull::new(p).unwrap(), l) }
    }
    /// A certain part of it.
    pub fn part(&mut self, from: usize, len: usize) -> Uninit<'_, ()> {
        assert!(from + len <= N);
        let p = unsafe { (self.0.as_mut_ptr() as *mut u8).add(from) };
        unsafe { Uninit::from_memory(NonNull::new(p).unwrap(), len) }
    }
    pub fn any_view(&self) -> UninitView<'_, ()> {
        let (o, l): (usize, usize) = (kani::any(), kani::any());
        kani::assume(o <= N && l <= N - o);
        let p = unsafe { (self.0.as_ptr() as *mut u8).add(o) };
        unsafe { UninitView::from_memory(NonNull::new(p).unwrap(), l) }
    }
}

/// Memory of any size.
pub struct Memory(*mut u8, usize);

impl Memory {
    pub fn new() -> Self {
        let n: usize = kani::any();
        kani::assume(n > 0 && n < 1 << 46);
        let p = unsafe { std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n, 1)) };
        Memory(p, n)
    }
    fn part(&self) -> (NonNull<u8>, usize) {
        let (o, l): (usize, usize) = (kani::any(), kani::any());
        kani::assume(o <= self.1 && l <= self.1 - o);
        (NonNull::new(unsafe { self.0.add(o) }).unwrap(), l)
    }
    /// Any part of it: any alignment, any length.
    pub fn any(&mut self) -> Uninit<'_, ()> {
        let (p, l) = self.part();
        unsafe { Uninit::from_memory(p, l) }
    }
    /// Any length from its start on.
    pub fn any_length(&mut self) -> Uninit<'_, ()> {
        let l: usize = kani::any();
        kani::assume(l <= self.1);
        unsafe { Uninit::from_memory(NonNull::new(self.0).unwrap(), l) }
    }
    pub fn any_view(&self) -> UninitView<'_, ()> {
        let (p, l) = self.part();
        unsafe { UninitView::from_memory(p, l) }
    }
    /// Any length from its start on.
    #[allow(dead_code)]
    pub fn any_view_length(&self) -> UninitView<'_, ()> {
        let l: usize = kani::any();
        kani::assume(l <= self.1);
        unsafe { UninitView::from_memory(NonNull::new(self.0).unwrap(), l) }
    }
}

/// First byte and number of bytes of what is described.
#[derive(Clone, Copy, PartialEq)]
pub struct Extent(pub usize, pub usize);

impl Extent {
    pub fn end(&self) -> usize {
        self.0 + self.1
    }
}

pub trait Extended {
    fn extent(&self) -> Extent;
}
impl<T: ?Sized> Extended for Uninit<'_, T> {
    fn extent(&self) -> Extent {
        assert!(self.size() == self.byte_capacity(), "sizes agree");
        assert!(self.as_ptr() as *mut u8 == self.as_non_null().as_ptr() as *mut u8, "pointers agree");
        Extent(self.as_ptr() as *const u8 as usize, self.byte_capacity())
    }
}
impl<T: ?Sized> Extended for UninitView<'_, T> {
    fn extent(&self) -> Extent {
        assert!(self.size() == self.byte_capacity(), "sizes agree");
        assert!(self.as_ptr() as *const u8 == self.as_non_null().as_ptr() as *const u8, "pointers agree");
        Extent(self.as_ptr() as *const u8 as usize, self.byte_capacity())
    }
}

/// `head` directly in front of `tail`, together all of `whole`.
pub fn partition(whole: Extent, head: Extent, tail: Extent) -> bool {
    head.0 == whole.0 && head.end() == tail.0 && head.1 + tail.1 == whole.1
}

#[derive(Clone, Copy)]
#[repr(align(16))]
pub struct Over(pub [u8; 16]);
#[derive(Clone, Copy, PartialEq, kani::Arbitrary)]
#[repr(align(128))]
pub struct Wide(pub u64);
#[derive(Clone, Copy, PartialEq, kani::Arbitrary)]
pub struct Three(pub u8, pub u8, pub u8);
#[derive(Clone, Copy, PartialEq, kani::Arbitrary)]
pub struct Mixed(pub u8, pub u32);
#[derive(Clone, Copy, PartialEq, kani::Arbitrary)]
#[repr(align(8))]
pub struct ZstOver;

/// How often each value was dropped. Values are numbered.
pub struct Drops;
static mut DROPS: [u8; 8] = [0; 8];

impl Drops {
    pub fn new() -> Self {
        Drops
    }
    pub fn of(&self, i: usize) -> u8 {
        unsafe { DROPS[i] }
    }
    pub fn make(&self, i: usize) -> Tracked<'_> {
        Tracked(core::marker::PhantomData, i as u8)
    }
}

/// A value that reports its drop.
pub struct Tracked<'d>(core::marker::PhantomData<&'d Drops>, pub u8);

impl Drop for Tracked<'_> {
    fn drop(&mut self) {
        unsafe { DROPS[self.1 as usize & 7] += 1 };
    }
}

/// A value of no size that reports its drop.
pub static mut ZST_DROPS: usize = 0;
pub struct ZstTracked;
impl Drop for ZstTracked {
    fn drop(&mut self) {
        unsafe { ZST_DROPS += 1 }
    }
}

/// A value with a partial order like that of floating point numbers.
#[derive(Clone, Copy, kani::Arbitrary)]
pub struct Odd(pub u8);
impl PartialEq for Odd {
    fn eq(&self, o: &Odd) -> bool { self.0 < 9 && self.0 == o.0 }
}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Odd) -> Option<core::cmp::Ordering> {
        if self.0 < 9 && o.0 < 9 { Some(self.0.cmp(&o.0)) } else { None }
    }
}
impl core::hash::Hash for Odd {
    fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
        h.write_u8(self.0);
        h.write_u8(7);
    }
}

/// Without size, and not equal to itself.
pub struct Never;
impl PartialEq for Never {
    fn eq(&self, _: &Never) -> bool { false }
}
impl PartialOrd for Never {
    fn partial_cmp(&self, _: &Never) -> Option<core::cmp::Ordering> { None }
}

/// Records what is written.
pub struct Record(pub u64);
impl core::hash::Hasher for Record {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = self.0 << 8 | *b as u64;
        }
    }
}
pub fn hash(x: &impl core::hash::Hash) -> u64 {
    let mut h = Record(1);
    x.hash(&mut h);
    h.0
}
