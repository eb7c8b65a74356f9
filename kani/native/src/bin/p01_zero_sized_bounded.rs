//! P01: memory for zero-sized types is aligned.
use static_alloc::Bump;
use vnative::*;
fn main() {
    static BUMP: Bump<[u8; 64]> = Bump::uninit();
    macro_rules! check {
        ($t:ty) => {
            for b in [&BUMP, &Bump::uninit()] {
                aligned(b.get::<$t>().expect("P01 zero-sized allocations always succeed").ptr.as_ptr());
                aligned(b.get_at::<$t>(b.level()).expect("P01 zero-sized allocations always succeed").ptr.as_ptr());
                b.alloc(std::alloc::Layout::new::<u8>());
            }
        };
    }
    zero_sized!(check);
}
