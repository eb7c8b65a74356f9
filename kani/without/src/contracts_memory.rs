//! The contracts written on the remaining functions for uninitialized memory, and on boxes, each checked against its
//! own body. Callers are checked against the contracts of what they call.
use crate::util::*;
use core::mem::MaybeUninit;
use vcommon::*;
use without_alloc::boxed::Box;
use without_alloc::uninit::UninitView;
use without_alloc::Uninit;

macro_rules! contract {
    ($name:ident, [$($f:tt)+] $(, by [$($s:tt)+])?, |$m:ident| $call:expr) => {
        #[kani::proof_for_contract($($f)+)]
        $(#[kani::stub_verified($($s)+)])?
        #[kani::unwind(4)]
        fn $name() {
            #[allow(unused_mut, unused_variables)]
            let mut $m = Memory::new();
            let r = $call;
            core::mem::forget(r);
            kani::cover!(true, "COVER");
        }
    };
}

fn slice<T>(m: &mut Memory) -> Uninit<'_, [T]> {
    let s = m.any_length().cast_slice::<T>();
    kani::assume(s.is_ok());
    s.ok().unwrap()
}
fn view<T>(m: &Memory) -> UninitView<'_, [T]> {
    let s = m.any_view_length().cast_slice::<T>();
    kani::assume(s.is_ok());
    s.ok().unwrap()
}
fn single<T>(m: &mut Memory) -> Uninit<'_, T> {
    let s = m.any_length().cast::<T>();
    kani::assume(s.is_ok());
    s.ok().unwrap()
}
fn single_view<T>(m: &Memory) -> UninitView<'_, T> {
    let s = m.any_view_length().cast::<T>();
    kani::assume(s.is_ok());
    s.ok().unwrap()
}

macro_rules! contracts {
    ($m:ident: $t:ty, $v:expr) => {
        mod $m {
            use super::*;
            contract!(p15_view_split_to_fit, [UninitView::<$t>::split_to_fit], by [UninitView::<$t>::split_at_byte],
                |m| single_view::<$t>(&m).split_to_fit());
            contract!(p15_split_to_fit, [Uninit::<$t>::split_to_fit], by [Uninit::<$t>::split_at_byte],
                |m| single::<$t>(&mut m).split_to_fit());
            contract!(p15_view_split_first, [UninitView::<[$t]>::split_first], by [UninitView::<[$t]>::split_at],
                |m| view::<$t>(&m).split_first());
            contract!(p15_split_first, [Uninit::<[$t]>::split_first], by [Uninit::<[$t]>::split_at],
                |m| slice::<$t>(&mut m).split_first());
            contract!(p15_view_split_last, [UninitView::<[$t]>::split_last], by [UninitView::<[$t]>::split_at],
                |m| view::<$t>(&m).split_last());
            contract!(p15_split_last, [Uninit::<[$t]>::split_last], by [Uninit::<[$t]>::split_at],
                |m| slice::<$t>(&mut m).split_last());
            contract!(p15_view_shrink_to_fit, [UninitView::<[$t]>::shrink_to_fit], by [UninitView::<[$t]>::split_at],
                |m| view::<$t>(&m).shrink_to_fit());
            contract!(p15_shrink_to_fit, [Uninit::<[$t]>::shrink_to_fit], by [Uninit::<[$t]>::split_at],
                |m| slice::<$t>(&mut m).shrink_to_fit());
            contract!(p16_view_capacity, [UninitView::<[$t]>::capacity], |m| view::<$t>(&m).capacity());
            contract!(p16_capacity, [Uninit::<[$t]>::capacity], |m| slice::<$t>(&mut m).capacity());
            contract!(p16_view_empty, [UninitView::<[$t]>::empty], |m| UninitView::<[$t]>::empty());
            contract!(p16_empty, [Uninit::<[$t]>::empty], |m| Uninit::<[$t]>::empty());
            contract!(p16_as_memory, [Uninit::<[$t]>::as_memory], |m| slice::<$t>(&mut m).as_memory());
            contract!(p16_of_value, [Uninit::<$t>::from_maybe_uninit], |m| {
                let mut v = MaybeUninit::<$t>::uninit();
                core::mem::forget(Uninit::from_maybe_uninit(&mut v))
            });
            contract!(p16_view_of_value, [UninitView::<$t>::from_maybe_uninit], |m| {
                let v = MaybeUninit::<$t>::uninit();
                core::mem::forget(UninitView::from_maybe_uninit(&v))
            });
            contract!(p16_of_values, [Uninit::<[$t]>::from_maybe_uninit_slice], |m| {
                let mut v: [MaybeUninit<$t>; 5] = unsafe { MaybeUninit::uninit().assume_init() };
                let n: usize = kani::any();
                kani::assume(n <= 5);
                core::mem::forget(Uninit::from_maybe_uninit_slice(&mut v[..n]))
            });
            contract!(p16_view_of_values, [UninitView::<[$t]>::from_maybe_uninit_slice], |m| {
                let v: [MaybeUninit<$t>; 5] = unsafe { MaybeUninit::uninit().assume_init() };
                let n: usize = kani::any();
                kani::assume(n <= 5);
                core::mem::forget(UninitView::from_maybe_uninit_slice(&v[..n]))
            });
            contract!(p20_new, [Box::<$t>::new], |m| Box::<$t>::new($v, single(&mut m)));
            contract!(p20_from_raw, [Box::<$t>::from_raw], |m| unsafe { Box::<$t>::from_raw(single(&mut m)) });
            contract!(p20_into_raw, [Box::<$t>::into_raw], |m| {
                let mut it = single::<$t>(&mut m);
                it.borrow_mut().init($v);
                Box::into_raw(unsafe { raw_box(it) })
            });
            contract!(p20_take, [Box::<$t>::take], by [Box::<$t>::into_raw], |m| {
                let mut it = single::<$t>(&mut m);
                it.borrow_mut().init($v);
                Box::take(unsafe { raw_box(it) })
            });
        }
    };
}
contracts!(of_halves: u16, kani::any());
contracts!(of_mixed: Mixed, kani::any());
contracts!(of_nothing: (), ());

/// A box, whose constructor is not what is to be checked.
unsafe fn raw_box<T>(it: Uninit<'_, T>) -> Box<'_, T> {
    Box::from_raw(it)
}

contract!(p16_view_fits, [UninitView::<()>::fits], |m| m.any_view().fits(any_layout()));
contract!(p16_fits, [Uninit::<()>::fits], by [UninitView::<()>::fits], |m| m.any().fits(any_layout()));
contract!(p16_invent, [Uninit::<[u64; 0]>::invent_for_zst], |m| Uninit::<[u64; 0]>::invent_for_zst());
contract!(p16_view_invent, [UninitView::<[u64; 0]>::invent_for_zst], |m| UninitView::<[u64; 0]>::invent_for_zst());
contract!(p16_from_memory, [Uninit::<()>::from_memory], |m| m.any());
contract!(p16_view_from_memory, [UninitView::<()>::from_memory], |m| m.any_view());
