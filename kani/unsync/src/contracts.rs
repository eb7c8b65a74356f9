//! The contracts written on the functions of the allocator, each checked against its own body. Callers are checked
//! against the contracts of what they call.
use static_alloc::unsync::contracts::private;
use static_alloc::unsync::{Bump, MemBump};
use vcommon::*;

/// Any state of a heap allocator of any size.
fn any_heap(f: impl FnOnce(&mut MemBump)) {
    let n: usize = kani::any();
    kani::assume(n < 1 << 46);
    let mut b = MemBump::new(n);
    private::any_state(&mut b);
    f(&mut b);
    core::mem::forget(b);
}

/// Any state of an allocator over its own storage, that does not begin at the start of an object.
fn any_own<T>(f: impl FnOnce(&mut MemBump)) {
    #[repr(C)]
    struct At<T>([u8; 24], Bump<T>);
    let mut at = At([0; 24], Bump::<T>::uninit());
    private::any_state(&mut at.1);
    f(&mut at.1);
}

macro_rules! contract {
    ($state:expr, $name:ident, $f:path $(, by $s:path)?, |$b:ident| $call:expr) => {
        #[kani::proof_for_contract($f)]
        $(#[kani::stub_verified($s)])?
        #[kani::unwind(4)]
        fn $name() {
            $state(|$b: &mut MemBump| {
                let r = $call;
                kani::cover!(good(&r), "COVER success");
                kani::cover!(!good(&r), "COVER failure");
            });
        }
    };
}

macro_rules! contracts {
    ($s:expr, $v:ty) => {
        use super::*;
        contract!($s, ip10_bump, MemBump::bump, |b| private::bump(b, kani::any(), kani::any()));
        contract!($s, ip10_try_alloc_at, MemBump::try_alloc_at, by MemBump::bump,
            |b| private::try_alloc_at(b, any_nonempty_layout(), kani::any()));
        contract!($s, ip10_try_alloc, MemBump::try_alloc, by MemBump::try_alloc_at,
            |b| private::try_alloc(b, any_nonempty_layout()));
        contract!($s, p10_alloc, MemBump::alloc, by MemBump::try_alloc, |b| b.alloc(any_nonempty_layout()));
        contract!($s, p10_get, MemBump::get::<$v>, by MemBump::try_alloc, |b| b.get::<$v>());
        contract!($s, p11_alloc_at, MemBump::alloc_at, by MemBump::try_alloc_at,
            |b| b.alloc_at(any_nonempty_layout(), kani::any()));
        contract!($s, p11_get_at, MemBump::get_at::<$v>, by MemBump::try_alloc_at, |b| b.get_at::<$v>(kani::any()));
        contract!($s, p10_reset, MemBump::reset, |b| b.reset());
    };
}

mod heap {
    contracts!(any_heap, u64);
}
mod bytes {
    contracts!(any_own::<[u8; 64]>, [u16; 3]);
}
mod aligned {
    contracts!(any_own::<u128>, ());
}
