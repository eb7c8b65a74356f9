//! P16: typed views of uninitialized memory. A cast succeeds exactly if the memory fits the type, and
//! keeps place and extent; conversions from and to standard types show the same memory; values
//! written are what is read.
use crate::util::*;
use core::mem::{self, MaybeUninit};
use core::ptr::NonNull;
use vcommon::*;
use without_alloc::uninit::UninitView;
use without_alloc::Uninit;


macro_rules! casts {
    ($($t:ty: $cast:ident, $vcast:ident, $slice:ident, $vslice:ident;)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $cast() {
            let mut buf = Memory::new();
            let me = buf.any();
            cast_body!(me, $t)
        }
        #[kani::proof]
        #[kani::unwind(4)]
        fn $vcast() {
            let buf = Memory::new();
            let me = buf.any_view();
            cast_body!(me, $t)
        }
        #[kani::proof]
        #[kani::unwind(4)]
        fn $slice() {
            let mut buf = Memory::new();
            let me = buf.any();
            slice_body!(me, $t)
        }
        #[kani::proof]
        #[kani::unwind(4)]
        fn $vslice() {
            let buf = Memory::new();
            let me = buf.any_view();
            slice_body!(me, $t)
        }
    )*};
}
macro_rules! cast_body {
    ($me:ident, $t:ty) => {{
        let whole = $me.extent();
        let l = core::alloc::Layout::new::<$t>();
        let fits = aligned(whole.0, l.align()) && l.size() <= whole.1;
        assert!($me.fits(l) == fits, "P16 fits exactly if aligned and large enough");
        match $me.cast::<$t>() {
            Ok(c) => {
                assert!(fits, "P16 only fitting memory is typed");
                assert!(c.extent() == whole, "P16 place and extent are kept");
                match c.cast::<()>() {
                    Ok(back) => assert!(back.extent() == whole, "P16 and back"),
                    Err(_) => assert!(false, "P16 anything is untyped memory"),
                }
                kani::cover!(true, "COVER cast");
            }
            Err(back) => {
                assert!(!fits, "P16 fitting memory is typed");
                assert!(back.extent() == whole, "P16 failure gives the memory back");
                kani::cover!(true, "cover refused");
            }
        }
    }};
}
macro_rules! slice_body {
    ($me:ident, $t:ty) => {{
        let whole = $me.extent();
        let fits = aligned(whole.0, mem::align_of::<$t>());
        match $me.cast_slice::<$t>() {
            Ok(c) => {
                assert!(fits, "P16 only aligned memory is a slice");
                assert!(c.extent() == whole, "P16 place and extent are kept");
                let n = whole.1.checked_div(mem::size_of::<$t>()).unwrap_or(usize::MAX);
                assert!(c.capacity() == n, "P16 as many elements as there is room for");
                assert!(c.as_non_null().len() == n, "P16 pointer of the same length");
                assert!(c.as_begin_ptr() as usize == whole.0, "P16 begins with the memory");
                assert!(c.fits(core::alloc::Layout::new::<[$t; 0]>()), "P16 fits what it is");
                let s = c.into_maybe_uninit_slice();
                assert!(s.len() == n && s.as_ptr() as usize == whole.0, "P16 the same slice");
                kani::cover!(n > 1, "cover slice");
                kani::cover!(true, "COVER slice");
            }
            Err(back) => {
                assert!(!fits, "P16 aligned memory is a slice");
                assert!(back.extent() == whole, "P16 failure gives the memory back");
            }
        }
    }};
}
casts! {
    u8: p16_cast_u8, p16_view_cast_u8, p16_slice_u8, p16_view_slice_u8;
    u32: p16_cast_u32, p16_view_cast_u32, p16_slice_u32, p16_view_slice_u32;
    Mixed: p16_cast_mixed, p16_view_cast_mixed, p16_slice_mixed, p16_view_slice_mixed;
    Three: p16_cast_three, p16_view_cast_three, p16_slice_three, p16_view_slice_three;
    Over: p16_cast_over, p16_view_cast_over, p16_slice_over, p16_view_slice_over;
    Wide: p16_cast_wide, p16_view_cast_wide, p16_slice_wide, p16_view_slice_wide;
    (): p16_cast_unit, p16_view_cast_unit, p16_slice_unit, p16_view_slice_unit;
    ZstOver: p16_cast_zst, p16_view_cast_zst, p16_slice_zst, p16_view_slice_zst;
}

/// `fits` for any layout.
#[kani::proof]
#[kani::unwind(4)]
fn p16_fits() {
    let mut buf = Memory::new();
    let l = any_layout();
    let me = buf.any();
    let whole = me.extent();
    let fits = aligned(whole.0, l.align()) && l.size() <= whole.1;
    assert!(me.fits(l) == fits, "P16 fits exactly if aligned and large enough");
    assert!(me.borrow().fits(l) == fits, "P16 views agree");
    if let Ok(s) = me.cast_slice::<u16>() {
        assert!(s.fits(l) == fits, "P16 slices agree");
        kani::cover!(fits, "COVER");
    }
}

/// A value that is put in is what comes out, by every way.
#[kani::proof]
#[kani::unwind(4)]
fn p16_values() {
    let mut buf = Buffer::<40>::new();
    let me = buf.any();
    let whole = me.extent();
    let Ok(c) = me.cast::<Mixed>() else { return };
    let (v, w): (Mixed, Mixed) = (kani::any(), kani::any());
    let r = c.init(v);
    assert!(r as *mut Mixed as usize == whole.0 && *r == v, "P16 initialized in place");
    *r = w;
    let back = unsafe { Uninit::<Mixed>::new(NonNull::from(r), whole.1) };
    assert!(unsafe { back.read() } == w, "P16 read");
    assert!(unsafe { *back.as_ref() } == w, "P16 shared");
    let view = back.borrow();
    assert!(view.extent() == whole, "P16 borrowed view");
    assert!(unsafe { *view.as_ref() } == w && unsafe { *view.into_ref() } == w, "P16 shared view");
    let mut back = back;
    assert!(unsafe { *back.as_mut() } == w, "P16 unique");
    {
        let inner = back.borrow_mut();
        assert!(inner.extent() == whole, "P16 borrowed");
        let r = inner.init(v);
        assert!(*r == v, "P16 initialized through the borrow");
    }
    assert!(unsafe { back.read() } == v, "P16 visible afterwards");
    let m = unsafe { back.into_mut() };
    assert!(*m == v, "P16 unique for good");
    kani::cover!(true, "COVER values");
}

/// Memory of a box, of a reference, of a `MaybeUninit`.
#[kani::proof]
#[kani::unwind(4)]
fn p16_conversions() {
    let mut slot = MaybeUninit::<Mixed>::uninit();
    let at = Extent(slot.as_ptr() as usize, mem::size_of::<Mixed>());
    let v: Mixed = kani::any();
    let u = if kani::any() { Uninit::from_maybe_uninit(&mut slot) } else { Uninit::from(&mut slot) };
    assert!(u.extent() == at, "P16 the same memory");
    let memory = u.as_memory();
    assert!(memory.extent() == at, "P16 untyped memory is the same");
    let Ok(u) = memory.cast::<Mixed>() else {
        assert!(false, "P16 can be typed again");
        return;
    };
    let m = u.into_maybe_uninit();
    assert!(m.as_ptr() as usize == at.0, "P16 back in place");
    m.write(v);
    let view = UninitView::from(&*m);
    assert!(view.extent() == at && view.into_maybe_uninit().as_ptr() as usize == at.0, "P16 viewed in place");
    let u = unsafe { Uninit::from_view(UninitView::from_maybe_uninit(m)) };
    assert!(u.extent() == at && unsafe { u.read() } == v, "P16 viewed value");
    let view: UninitView<Mixed> = u.into();
    assert!(view.extent() == at && view.borrow().extent() == at, "P16 views keep the extent");
    kani::cover!(true, "COVER");
}

#[kani::proof]
#[kani::unwind(4)]
fn p16_slice_conversions() {
    let mut slots = [MaybeUninit::<Mixed>::uninit(); 3];
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let at = Extent(slots.as_ptr() as usize, n * mem::size_of::<Mixed>());
    let view = UninitView::from(&slots[..n]);
    assert!(view.extent() == at && view.capacity() == n, "P16 viewed slice");
    let view = UninitView::from_maybe_uninit_slice(&slots[..n]);
    assert!(view.extent() == at && view.into_maybe_uninit_slice().len() == n, "P16 viewed slice");
    let u = if kani::any() { Uninit::from_maybe_uninit_slice(&mut slots[..n]) } else { Uninit::from(&mut slots[..n]) };
    assert!(u.extent() == at && u.capacity() == n, "P16 the same slice");
    assert!(u.as_begin_ptr() as usize == at.0, "P16 begins with it");
    let s = u.into_maybe_uninit_slice();
    assert!(s.as_ptr() as usize == at.0 && s.len() == n, "P16 back in place");
    let i: usize = kani::any();
    kani::assume(i < n);
    let v: Mixed = kani::any();
    s[i].write(v);
    assert!(unsafe { slots[i].assume_init() } == v, "P16 elements in order");
    kani::cover!(true, "COVER");
}

/// Memory that needs no bytes.
#[kani::proof]
#[kani::unwind(4)]
fn p16_empty() {
    let u = Uninit::<ZstOver>::invent_for_zst();
    assert!(u.extent().1 == 0 && aligned(u.extent().0, 8), "P16 zero-sized");
    u.init(ZstOver);
    let u = UninitView::<()>::invent_for_zst();
    assert!(u.extent().1 == 0, "P16 zero-sized");
    let e = if kani::any() { Uninit::<[Mixed]>::empty() } else { Default::default() };
    assert!(e.capacity() == 0 && e.extent().1 == 0, "P16 empty slice");
    assert!(aligned(e.extent().0, mem::align_of::<Mixed>()), "P16 empty slice is aligned");
    assert!(e.into_maybe_uninit_slice().is_empty(), "P16 empty slice");
    let e = if kani::any() { UninitView::<[Mixed]>::empty() } else { Default::default() };
    assert!(e.capacity() == 0 && e.extent().1 == 0, "P16 empty slice");
    kani::cover!(true, "COVER");
}

/// Coercion to an unsized type keeps place and extent.
#[kani::proof]
#[kani::unwind(4)]
fn p16_unsize() {
    use unsize::{Coercion, CoerceUnsize};
    let mut buf = Memory::new();
    let me = buf.any();
    let whole = me.extent();
    let Ok(c) = me.cast::<[u16; 3]>() else { return };
    let s = c.unsize(Coercion::<[u16; 3], [u16]>::to_slice());
    assert!(s.extent() == whole, "P16 place and extent are kept");
    assert!(s.as_non_null().len() == 3, "P16 length of the array");
    let view: UninitView<[u16; 3]> = unsafe { Uninit::<[u16; 3]>::new(NonNull::new_unchecked(whole.0 as *mut _), whole.1) }.into();
    let s = view.unsize(Coercion::<[u16; 3], [u16]>::to_slice());
    assert!(s.extent() == whole && s.as_non_null().len() == 3, "P16 views, too");
    kani::cover!(true, "COVER");
}
