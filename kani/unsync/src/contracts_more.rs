//! The contracts written on scratch space, leaked values, chains, and on what requests are made of, each checked
//! against its own body.
use core::mem::{ManuallyDrop, MaybeUninit};
use static_alloc::leaked::{contracts as scratch, Alloca, LeakBox};
use static_alloc::unsync::chain_contracts as chains;
use static_alloc::unsync::contracts::private;
use static_alloc::unsync::{Bump, Chain, MemBump};

/// Any state of an allocator over its own storage, that does not begin at the start of an object.
fn any_own<T>(f: impl FnOnce(&mut MemBump)) {
    #[repr(C)]
    struct At<T>([u8; 24], Bump<T>);
    let mut at = At([0; 24], Bump::<T>::uninit());
    private::any_state(&mut at.1);
    f(&mut at.1);
}

macro_rules! elements {
    ($m:ident: $t:ty) => {
        mod $m {
            use super::*;
            #[kani::proof_for_contract(Alloca::<$t>::new)]
            fn p13_new() {
                let a = Alloca::<$t>::new(kani::any());
                kani::cover!(a.is_some(), "COVER success");
            }
            #[kani::proof_for_contract(Alloca::<$t>::padded_layout)]
            fn p13_padded_layout() {
                scratch::padded_layout(&scratch::any_space::<$t>());
                kani::cover!(true, "COVER");
            }
            #[kani::proof_for_contract(MemBump::bump_box::<$t>)]
            #[kani::unwind(4)]
            fn p10_bump_box() {
                any_own::<[u8; 40]>(|b| {
                    let r = ManuallyDrop::new(b.bump_box::<$t>());
                    kani::cover!(r.is_ok(), "COVER success");
                });
            }
            #[kani::proof_for_contract(MemBump::bump_array::<$t>)]
            #[kani::unwind(4)]
            fn p10_bump_array() {
                any_own::<[u8; 40]>(|b| {
                    let r = ManuallyDrop::new(b.bump_array::<$t>(kani::any()));
                    kani::cover!(r.is_ok(), "COVER success");
                });
            }
        }
    };
}
elements!(of_bytes: u8);
elements!(of_mixed: (u8, u32, u16));
elements!(of_words: u64);
elements!(of_nothing: ());

#[kani::proof_for_contract(LeakBox::<u32>::from_raw)]
fn p24_from_raw() {
    let mut v = 3u32;
    core::mem::forget(unsafe { LeakBox::from_raw(&mut v) });
    kani::cover!(true, "COVER");
}
#[kani::proof_for_contract(LeakBox::<u32>::into_raw)]
fn p24_into_raw() {
    let mut v = 3u32;
    LeakBox::into_raw(LeakBox::from_mut(&mut v));
    kani::cover!(true, "COVER");
}
#[kani::proof_for_contract(LeakBox::<MaybeUninit<u32>>::assume_init)]
fn p24_assume_init() {
    let mut v = MaybeUninit::new(3u32);
    core::mem::forget(unsafe { LeakBox::assume_init(LeakBox::from(&mut v)) });
    kani::cover!(true, "COVER");
}

#[kani::proof_for_contract(MemBump::layout_from_size)]
fn p12_layout_from_size() {
    let r = private::layout_from_size(kani::any());
    kani::cover!(r.is_ok(), "COVER success");
    kani::cover!(r.is_err(), "COVER failure");
}
#[kani::proof_for_contract(static_alloc::unsync::chain::Link::layout_from_size)]
fn p14_layout_from_size() {
    let r = chains::layout_from_size(kani::any());
    kani::cover!(r.is_ok(), "COVER success");
    kani::cover!(r.is_err(), "COVER failure");
}
#[kani::proof_for_contract(Chain::new)]
fn p14_new() {
    let n: usize = kani::any();
    kani::assume(n < 1 << 46 || n > 1 << 62);
    let r = ManuallyDrop::new(Chain::new(n));
    kani::cover!(r.is_ok(), "COVER success");
    kani::cover!(r.is_err(), "COVER failure");
}

/// A chain with a first memory of any size, in any state.
fn any_chain() -> ManuallyDrop<Chain> {
    let n: usize = kani::any();
    kani::assume(n < 1 << 46);
    let chain = ManuallyDrop::new(chains::create(n));
    chains::any_state(&chain);
    chain
}
#[kani::proof_for_contract(Chain::capacity)]
fn p14_capacity() {
    any_chain().capacity();
    kani::cover!(true, "COVER");
}
#[kani::proof_for_contract(Chain::remaining_capacity)]
fn p14_remaining_capacity() {
    any_chain().remaining_capacity();
    kani::cover!(true, "COVER");
}
