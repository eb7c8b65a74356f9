//! P10: memory for zero-sized types and empty arrays is aligned.
use static_alloc::unsync::Bump;
use vnative::*;
fn main() {
    let b: Bump<[u8; 64]> = Bump::uninit();
    macro_rules! check {
        ($t:ty) => {
            aligned(b.get::<$t>().expect("P10 zero-sized always succeeds").ptr.as_ptr());
            aligned(b.get_at::<$t>(b.level()).ok().expect("P10 zero-sized always succeeds").ptr.as_ptr());
            aligned(b.bump_box::<$t>().ok().expect("P10 zero-sized always succeeds").as_ptr());
            aligned(b.bump_array::<$t>(3).ok().expect("P10 zero-sized always succeeds").as_ptr());
            b.alloc(std::alloc::Layout::new::<u8>());
        };
    }
    zero_sized!(check);
}
