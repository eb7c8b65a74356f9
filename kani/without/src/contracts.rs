//! The contracts written on the functions for uninitialized memory, each checked against its own body. Callers are
//! checked against the contracts of what they call.
use crate::util::*;
use vcommon::*;
use without_alloc::uninit::UninitView;
use without_alloc::{FixedVec, Uninit};

macro_rules! contract {
    ($name:ident, $f:path $(, by $s:path)?, |$m:ident| $call:expr) => {
        #[kani::proof_for_contract($f)]
        $(#[kani::stub_verified($s)])?
        #[kani::unwind(4)]
        fn $name() {
            #[allow(unused_mut)]
            let mut $m = Memory::new();
            let r = $call;
            kani::cover!(good(&r), "COVER success");
            kani::cover!(!good(&r), "COVER failure");
        }
    };
}

contract!(p15_view_split_at_byte, UninitView::<()>::split_at_byte, |m| m.any_view().split_at_byte(kani::any()));
contract!(p15_view_split_layout, UninitView::<()>::split_layout, by UninitView::<()>::split_at_byte,
    |m| m.any_view().split_layout(any_layout()));
contract!(p15_view_split_cast, UninitView::<()>::split_cast::<u32>, by UninitView::<()>::split_layout,
    |m| m.any_view().split_cast::<u32>());
contract!(p15_view_split_slice, UninitView::<()>::split_slice::<u32>, by UninitView::<()>::split_layout,
    |m| m.any_view().split_slice::<u32>());
contract!(p15_split_at_byte, Uninit::<()>::split_at_byte, by UninitView::<()>::split_at_byte,
    |m| m.any().split_at_byte(kani::any()));
contract!(p15_split_layout, Uninit::<()>::split_layout, by UninitView::<()>::split_layout,
    |m| m.any().split_layout(any_layout()));
contract!(p16_view_cast, UninitView::<()>::cast::<Mixed>, |m| m.any_view().cast::<Mixed>());
contract!(p16_view_cast_slice, UninitView::<()>::cast_slice::<Mixed>, |m| m.any_view().cast_slice::<Mixed>());
contract!(p16_cast, Uninit::<()>::cast::<Mixed>, by UninitView::<()>::cast::<Mixed>, |m| m.any().cast::<Mixed>());
contract!(p16_cast_slice, Uninit::<()>::cast_slice::<Mixed>, by UninitView::<()>::cast_slice::<Mixed>,
    |m| m.any().cast_slice::<Mixed>());
contract!(p15_view_split_at, UninitView::<[u16]>::split_at, by UninitView::<()>::cast_slice::<u16>, |m| {
    let s = m.any_view().cast_slice::<u16>();
    kani::assume(s.is_ok());
    s.ok().unwrap().split_at(kani::any())
});
contract!(p15_split_at, Uninit::<[u16]>::split_at, by UninitView::<[u16]>::split_at, |m| {
    let s = m.any().cast_slice::<u16>();
    kani::assume(s.is_ok());
    s.ok().unwrap().split_at(kani::any())
});
