use core::alloc::Layout;
use core::mem;
use static_alloc::bump::Level;
use static_alloc::Bump;

/// An allocator surrounded by foreign memory, `PRE` bytes behind a page boundary.
#[repr(C, align(4096))]
pub struct At<const PRE: usize, T> {
    pub pre: [u8; PRE],
    pub bump: Bump<T>,
    pub post: [u8; 64],
}

impl<const PRE: usize, T> At<PRE, T> {
    pub const fn new() -> Self {
        At { pre: [0; PRE], bump: Bump::uninit(), post: [0; 64] }
    }
}

pub fn bytes(size: usize) -> Layout {
    Layout::from_size_align(size, 1).unwrap()
}

/// Drive a fresh allocator into an arbitrary state: the state of an allocator is its fill level
/// (p03 shows each operation's effect depends on nothing else), and every level `c` is reached
/// by one byte-aligned allocation of `c` bytes. That it succeeds is itself checked by p03.
pub fn raise<T>(b: &Bump<T>) -> usize {
    let c: usize = kani::any();
    kani::assume(c <= mem::size_of::<T>());
    raise_to(b, c);
    c
}

pub fn raise_to<T>(b: &Bump<T>, c: usize) {
    if c > 0 {
        let r = b.alloc(bytes(c));
        kani::assume(r.is_some());
    }
}

/// The level value of a (different) fresh allocator of the same type after `c` bytes.
pub fn level_of<T>(c: usize) -> Level {
    let twin = Bump::<T>::uninit();
    raise_to(&twin, c);
    twin.level()
}

/// Base address of the memory that is handed out, as observed on a fresh allocator, which is
/// left fresh again.
pub fn base_of<T>(b: &mut Bump<T>) -> usize {
    let p = b.alloc(bytes(1));
    kani::assume(p.is_some());
    b.reset();
    p.unwrap().as_ptr() as usize
}

/// An allocator with memory that is far larger than any object of the verifier could be otherwise: it is put into heap
/// memory of any sufficient size. The storage holds what was there before.
pub fn huge<T>(pre: usize) -> &'static mut Bump<T> {
    let n: usize = kani::any();
    let least = pre + mem::size_of::<Bump<T>>();
    kani::assume(n >= least && n - least < 1 << 20);
    unsafe {
        let p = std::alloc::alloc(Layout::from_size_align_unchecked(n, 1));
        let b = &mut *(p.add(pre) as *mut Bump<T>);
        b.reset();
        b
    }
}
