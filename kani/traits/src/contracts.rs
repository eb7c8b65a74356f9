//! The contracts written on the functions of layouts, each checked against its own body.
use alloc_traits::{Layout, NonZeroLayout};

macro_rules! contract {
    ($name:ident, $f:path $(, by $($s:path),+)?; $call:expr) => {
        #[kani::proof_for_contract($f)]
        $($(#[kani::stub_verified($s)])+)?
        fn $name() {
            $call;
            kani::cover!(true, "COVER");
        }
    };
}

contract!(p28_layout_size, Layout::size; kani::any::<Layout>().size());
contract!(p28_layout_align, Layout::align; kani::any::<Layout>().align());
contract!(p28_from_layout, NonZeroLayout::from_layout, by Layout::size; NonZeroLayout::from_layout(kani::any()));
contract!(p28_size, NonZeroLayout::size, by Layout::size; kani::any::<NonZeroLayout>().size());
contract!(p28_align, NonZeroLayout::align, by Layout::align; kani::any::<NonZeroLayout>().align());

macro_rules! news {
    ($($m:ident: $t:ty;)*) => {$(
        mod $m {
            use super::*;
            contract!(p28_layout_new, Layout::new::<$t>; Layout::new::<$t>());
            contract!(p28_new, NonZeroLayout::new::<$t>, by NonZeroLayout::from_layout, Layout::new::<$t>;
                NonZeroLayout::new::<$t>());
        }
    )*};
}
news! {
    byte: u8;
    mixed: (u8, u32, u16);
    wide: u128;
    nothing: ();
    aligned_nothing: [u64; 0];
}
