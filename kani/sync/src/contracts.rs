//! The contracts written on the functions of the allocator, each checked against its own body. Callers are checked
//! against the contracts of what they call.
use static_alloc::bump::contracts::private;
use static_alloc::Bump;
use vcommon::*;

/// Any state of an allocator that does not begin at the start of an object.
fn any_state<T>(f: impl FnOnce(&mut Bump<T>)) {
    #[repr(C)]
    struct At<T>([u8; 24], Bump<T>);
    let mut at = At([0; 24], Bump::<T>::uninit());
    private::any_state(&mut at.1);
    f(&mut at.1);
}

macro_rules! contract {
    ($name:ident, $t:ty, $f:path $(, by $s:path)?, |$b:ident| $call:expr) => {
        #[kani::proof_for_contract($f)]
        $(#[kani::stub_verified($s)])?
        #[kani::unwind(4)]
        fn $name() {
            any_state::<$t>(|$b| {
                let r = $call;
                kani::cover!(good(&r), "COVER success");
                kani::cover!(!good(&r), "COVER failure");
            });
        }
    };
}

macro_rules! contracts {
    ($t:ty, $v:ty) => {
        use super::*;
        contract!(ip03_bump, $t, Bump::<$t>::bump, |b| private::bump(b, kani::any(), kani::any()));
        contract!(ip03_try_alloc_at, $t, Bump::<$t>::try_alloc_at, by Bump::<$t>::bump,
            |b| private::try_alloc_at(b, any_nonempty_layout(), kani::any()));
        contract!(ip03_try_alloc, $t, Bump::<$t>::try_alloc, by Bump::<$t>::try_alloc_at,
            |b| private::try_alloc(b, any_nonempty_layout()));
        contract!(p03_alloc, $t, Bump::<$t>::alloc, by Bump::<$t>::try_alloc, |b| b.alloc(any_nonempty_layout()));
        contract!(p03_get_layout, $t, Bump::<$t>::get_layout, by Bump::<$t>::try_alloc,
            |b| b.get_layout(any_nonempty_layout()));
        contract!(p03_get, $t, Bump::<$t>::get::<$v>, by Bump::<$t>::try_alloc, |b| b.get::<$v>());
        contract!(p04_alloc_at, $t, Bump::<$t>::alloc_at, by Bump::<$t>::try_alloc_at,
            |b| b.alloc_at(any_nonempty_layout(), kani::any()));
        contract!(p04_get_layout_at, $t, Bump::<$t>::get_layout_at, by Bump::<$t>::try_alloc_at,
            |b| b.get_layout_at(any_nonempty_layout(), kani::any()));
        contract!(p04_get_at, $t, Bump::<$t>::get_at::<$v>, by Bump::<$t>::try_alloc_at, |b| b.get_at::<$v>(kani::any()));
        contract!(p03_reset, $t, Bump::<$t>::reset, |b| b.reset());
    };
}

mod bytes {
    contracts!([u8; 64], u64);
}
mod odd {
    contracts!([u16; 5], [u16; 3]);
}
mod empty {
    contracts!((), ());
}

#[kani::proof_for_contract(static_alloc::bump::layout_reallocated)]
#[kani::unwind(4)]
fn p06_layout_reallocated() {
    let layout = alloc_traits::NonZeroLayout::from_layout(any_nonempty_layout().into()).unwrap();
    let target: usize = kani::any();
    kani::assume(target != 0);
    let r = private::layout_reallocated(layout, core::num::NonZeroUsize::new(target).unwrap());
    kani::cover!(r.is_some(), "COVER success");
    kani::cover!(r.is_none(), "COVER failure");
}
