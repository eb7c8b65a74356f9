//! The contracts written on the functions of the shared owner and of the vector, each checked against its own body.
//! Callers are checked against the contracts of what they call.
use crate::util::*;
use vcommon::*;
use without_alloc::fixed_vec::contracts::any_filled;
use without_alloc::rc::contracts::private::{self, weak};
use without_alloc::rc::{Rc, Weak};
use without_alloc::{FixedVec, Uninit};

type Store = Buffer<40>;

/// Memory for a value, and any number of bytes more.
fn any_memory(store: &mut Store) -> Uninit<'_, ()> {
    let len: usize = kani::any();
    kani::assume(len <= 40);
    unsafe { Uninit::from_memory(core::ptr::NonNull::from(&mut store.0).cast(), len) }
}

/// Any owner of a value, with any counters.
fn any_rc<'a, T>(store: &'a mut Store, val: T) -> Rc<'a, T> {
    let u = any_memory(store);
    kani::assume(u.fits(Rc::<T>::layout()));
    let rc = Rc::new(val, u);
    private::any_state(&rc);
    rc
}

macro_rules! rc {
    ($name:ident, [$($f:tt)+] $(, by $($s:path),+)?; |$rc:ident| $call:expr) => {
        #[kani::proof_for_contract($($f)+)]
        $($(#[kani::stub_verified($s)])+)?
        #[kani::unwind(4)]
        fn $name() {
            let mut m = Store::new();
            #[allow(unused_mut)]
            let mut $rc = any_rc(&mut m, value());
            core::mem::forget($call);
            kani::cover!(true, "COVER");
        }
    };
    ($name:ident, [$($f:tt)+] $(, by $($s:path),+)?; moved |$rc:ident| $call:expr) => {
        #[kani::proof_for_contract($($f)+)]
        $($(#[kani::stub_verified($s)])+)?
        #[kani::unwind(4)]
        fn $name() {
            let mut m = Store::new();
            let $rc = any_rc(&mut m, value());
            let r = $call;
            kani::cover!(r.is_ok(), "COVER success");
            kani::cover!(r.is_err(), "COVER failure");
            core::mem::forget(r);
        }
    };
}

/// Functions of traits can not carry contracts: pre- and postcondition around the call.
macro_rules! triple {
    ($name:ident, $($s:path),+; |$rc:ident, $before:ident| $body:block) => {
        #[kani::proof]
        $(#[kani::stub_verified($s)])+
        #[kani::unwind(4)]
        fn $name() {
            let mut m = Store::new();
            let $rc = core::mem::ManuallyDrop::new(any_rc(&mut m, value()));
            let $before = $rc.counts();
            $body;
            kani::cover!(true, "COVER");
        }
    };
}

macro_rules! owners {
    ($m:ident, $t:ty, $v:expr) => {
        mod $m {
            use super::*;
            fn value() -> $t {
                $v
            }
            #[kani::proof_for_contract(Rc::<$t>::new)]
            #[kani::unwind(4)]
            fn p21_new() {
                let mut m = Store::new();
                core::mem::forget(Rc::<$t>::new(value(), any_memory(&mut m)));
                kani::cover!(true, "COVER");
            }
            rc!(ip21_inc_strong, [Rc::<$t>::inc_strong]; |rc| { private::inc_strong(&rc); rc });
            rc!(ip21_dec_strong, [Rc::<$t>::dec_strong]; |rc| { private::dec_strong(&rc); rc });
            rc!(ip21_inc_weak, [Rc::<$t>::inc_weak]; |rc| { private::inc_weak(&rc); rc });
            rc!(ip21_dec_weak, [Rc::<$t>::dec_weak]; |rc| { private::dec_weak(&rc); rc });
            rc!(ip21_is_unique, [Rc::<$t>::is_unique], by Rc::<$t>::strong_count, Rc::<$t>::weak_count;
                |rc| { private::is_unique(&rc); rc });
            rc!(p21_strong_count, [Rc::<$t>::strong_count]; |rc| { Rc::strong_count(&rc); rc });
            rc!(p21_weak_count, [Rc::<$t>::weak_count]; |rc| { Rc::weak_count(&rc); rc });
            rc!(p21_downgrade, [Rc::<$t>::downgrade], by Rc::<$t>::inc_weak; |rc| { core::mem::forget(Rc::downgrade(&rc)); rc });
            rc!(p21_get_mut, [Rc::<$t>::get_mut], by Rc::<$t>::is_unique; |rc| { Rc::get_mut(&mut rc).is_some(); rc });
            rc!(p21_into_raw, [Rc::<$t>::into_raw], by Rc::<$t>::is_unique; moved |rc| Rc::into_raw(rc));
            rc!(p21_try_unwrap, [Rc::<$t>::try_unwrap], by Rc::<$t>::dec_strong; moved |rc| Rc::try_unwrap(rc));
            rc!(ip21_weak_inc_weak, [Weak::<$t>::inc_weak]; |rc| { let w = weak(rc); private::weak_inc_weak(&w); w });
            rc!(ip21_weak_dec_weak, [Weak::<$t>::dec_weak]; |rc| { let w = weak(rc); private::weak_dec_weak(&w); w });
            rc!(ip21_weak_is_unique, [Weak::<$t>::is_unique_to_rc_memory];
                |rc| { let w = weak(rc); private::is_unique_to_rc_memory(&w); w });
            rc!(p21_weak_strong_count, [Weak::<$t>::strong_count]; |rc| { let w = weak(rc); w.strong_count(); w });
            rc!(p21_weak_weak_count, [Weak::<$t>::weak_count]; |rc| { let w = weak(rc); w.weak_count(); w });
            rc!(p21_upgrade, [Weak::<$t>::upgrade], by Rc::<$t>::inc_strong;
                |rc| { let w = weak(rc); core::mem::forget(w.upgrade()); w });
            rc!(p21_weak_try_unwrap, [Weak::<$t>::try_unwrap], by Weak::<$t>::is_unique_to_rc_memory;
                moved |rc| weak(rc).try_unwrap());
            triple!(p21_clone, Rc::<$t>::inc_strong; |rc, before| {
                kani::assume(before.owned() && before.strong < isize::MAX as usize);
                let other = (*rc).clone();
                assert!(rc.counts() == before.strongs(1) && other.counts() == rc.counts(), "contract: one more owner of the value");
                core::mem::forget(other);
            });
            triple!(p21_weak_clone, Weak::<$t>::inc_weak; |rc, before| {
                kani::assume(before.weak < isize::MAX as usize);
                let w = core::mem::ManuallyDrop::new(weak(core::mem::ManuallyDrop::into_inner(rc)));
                let other = (*w).clone();
                assert!(w.counts() == before.weaks(1) && other.counts() == w.counts(), "contract: one more owner of the memory");
                core::mem::forget(other);
            });
            triple!(p21_drop, Rc::<$t>::dec_strong, Rc::<$t>::dec_weak; |rc, before| {
                kani::assume(before.owned());
                let w = core::mem::ManuallyDrop::new(private::alias(&rc));
                drop(core::mem::ManuallyDrop::into_inner(rc));
                assert!(w.counts() == before.without(), "contract: the last owner of the value gives up its memory");
            });
            triple!(p21_weak_drop, Weak::<$t>::dec_weak; |rc, before| {
                let w = core::mem::ManuallyDrop::new(private::alias(&rc));
                drop(weak(core::mem::ManuallyDrop::into_inner(rc)));
                assert!(w.counts() == before.weaks(-1), "contract: one owner of the memory less");
            });
            #[kani::proof_for_contract(Rc::<$t>::ptr_eq)]
            #[kani::unwind(4)]
            fn p21_ptr_eq() {
                let (mut m, mut n) = (Store::new(), Store::new());
                let (a, b) = (any_rc(&mut m, value()), any_rc(&mut n, value()));
                Rc::ptr_eq(&a, if kani::any() { &a } else { &b });
                core::mem::forget((a, b));
            }
        }
    };
}
owners!(word, u32, kani::any());
owners!(nothing, (), ());

/// A vector of any length in any memory.
fn any_vec<T>(memory: &mut Memory) -> FixedVec<'_, T> {
    let u = memory.any_length().cast_slice::<T>();
    kani::assume(u.is_ok());
    any_filled(u.ok().unwrap())
}

macro_rules! vec {
    ($name:ident, $f:path $(, by $($s:path),+)?; |$v:ident: $t:ty| $call:expr) => {
        #[kani::proof_for_contract($f)]
        $($(#[kani::stub_verified($s)])+)?
        #[kani::unwind(4)]
        fn $name() {
            let mut m = Memory::new();
            let mut $v = core::mem::ManuallyDrop::new(any_vec::<$t>(&mut m));
            core::mem::forget($call);
            kani::cover!(true, "COVER");
        }
    };
}

macro_rules! vecs {
    ($m:ident, $t:ty, $v:expr) => {
        mod $m {
            use super::*;
            fn value() -> $t {
                $v
            }
            vec!(p17_set_len, FixedVec::<$t>::set_len; |v: $t| unsafe { v.set_len(kani::any()) });
            vec!(p17_len, FixedVec::<$t>::len; |v: $t| v.len());
            vec!(p17_is_empty, FixedVec::<$t>::is_empty; |v: $t| v.is_empty());
            vec!(p17_capacity, FixedVec::<$t>::capacity; |v: $t| v.capacity());
            vec!(p17_push, FixedVec::<$t>::push; |v: $t| v.push(value()));
            vec!(p17_pop, FixedVec::<$t>::pop; |v: $t| v.pop());
            vec!(p18_split_borrowed, FixedVec::<$t>::split_borrowed; |v: $t| v.split_borrowed(kani::any()));
            vec!(p18_split_and_shrink_to, FixedVec::<$t>::split_and_shrink_to, by Uninit::<[$t]>::split_at; |v: $t| v.split_and_shrink_to(kani::any()));
            vec!(p17_shrink_to_fit, FixedVec::<$t>::shrink_to_fit; |v: $t| v.shrink_to_fit());
            #[kani::proof_for_contract(FixedVec::<$t>::new)]
            #[kani::unwind(4)]
            fn p17_new() {
                let mut m = Memory::new();
                let u = m.any().cast_slice::<$t>();
                kani::assume(u.is_ok());
                core::mem::forget(FixedVec::<$t>::new(u.ok().unwrap()));
                kani::cover!(true, "COVER");
            }
            #[kani::proof_for_contract(FixedVec::<$t>::from_unaligned)]
            #[kani::unwind(4)]
            fn p17_from_unaligned() {
                let mut m = Memory::new();
                core::mem::forget(FixedVec::<$t>::from_unaligned(m.any()));
                kani::cover!(true, "COVER");
            }
        }
    };
}
vecs!(vec_of_bytes, u8, kani::any());
vecs!(vec_of_halves, u16, kani::any());
vecs!(vec_of_nothing, (), ());
