use core::alloc::Layout;
use core::mem::MaybeUninit;
use static_alloc::bump::Level;
use static_alloc::unsync::{Bump, MemBump};

pub fn bytes(size: usize) -> Layout {
    Layout::from_size_align(size, 1).unwrap()
}

/// Any state of an allocator: its level is all of it, and every level is reached by one
/// byte-aligned allocation (p10 shows it succeeds and what every operation does to the level).
pub fn raise(b: &MemBump) -> usize {
    let c: usize = kani::any();
    kani::assume(c <= b.capacity());
    raise_to(b, c);
    c
}

pub fn raise_to(b: &MemBump, c: usize) {
    if c > 0 {
        let r = b.alloc(bytes(c));
        kani::assume(r.is_some());
    }
}

/// The level value of an allocator `c` bytes of which are in use.
pub fn level_of(c: usize) -> Level {
    let twin = Bump::<[u8; 80]>::uninit();
    raise_to(&twin, c);
    twin.level()
}

/// The same, for this allocator of any size, which is left empty.
pub fn level_in(b: &mut MemBump, c: usize) -> Level {
    b.reset();
    raise_to(b, c);
    let level = b.level();
    b.reset();
    level
}

#[repr(C, align(32))]
pub struct Buffer<const N: usize>(pub [MaybeUninit<u8>; N]);

impl<const N: usize> Buffer<N> {
    pub fn new() -> Self {
        Buffer([MaybeUninit::uninit(); N])
    }
    /// Any subslice: any alignment, any length.
    pub fn any(&mut self) -> &mut [MaybeUninit<u8>] {
        let (o, l): (usize, usize) = (kani::any(), kani::any());
        kani::assume(o <= N && l <= N - o);
        &mut self.0[o..o + l]
    }
}

#[repr(align(32))]
#[derive(Clone, Copy)]
pub struct Over(pub [u8; 32]);

/// Memory of any size.
pub struct Long(*mut u8, usize);

impl Long {
    pub fn new() -> Self {
        let n: usize = kani::any();
        kani::assume(n > 64 && n < 1 << 46);
        let p = unsafe { std::alloc::alloc(Layout::from_size_align_unchecked(n, 1)) };
        Long(p, n)
    }
    pub fn any(&mut self) -> &mut [MaybeUninit<u8>] {
        let o: usize = kani::any();
        kani::assume(o <= self.1);
        self.from(o)
    }
    /// Any length from a certain place on.
    pub fn from(&mut self, o: usize) -> &mut [MaybeUninit<u8>] {
        let l: usize = kani::any();
        kani::assume(l <= self.1 - o);
        unsafe { core::slice::from_raw_parts_mut(self.0.add(o) as *mut MaybeUninit<u8>, l) }
    }
}
