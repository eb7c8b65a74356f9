//! P21: shared ownership with exact counting.
use crate::util::{self, *};
use core::borrow::Borrow;
use core::cell::RefCell;
use core::mem;
use vcommon::*;
use without_alloc::rc::{Rc, Weak};
use without_alloc::Uninit;

#[repr(C, align(16))]
struct Memory([usize; 4]);

impl Memory {
    fn new() -> Self {
        Memory([0; 4])
    }
    fn part(&mut self, len: usize) -> Uninit<'_, ()> {
        let p = core::ptr::NonNull::new(self.0.as_mut_ptr() as *mut u8).unwrap();
        unsafe { Uninit::from_memory(p, len) }
    }
}

/// More owners or users than any machine can have had.
const LIMIT: usize = isize::MAX as usize;

/// An owner of a value in an arbitrary state: `strong` owners in all, `weak` users of the memory in
/// all, where all owners together count as one. The counters are found by watching which word of the memory
/// changes with one more owner or user, and then set, and assumed to be in order as reported; the other owners and users are elsewhere.
unsafe fn any_state<T>(memory: *mut [usize; 4], rc: &Rc<'_, T>) -> (usize, usize) {
    let before = *memory;
    let other = Rc::clone(rc);
    let strong = differs(&before, &*memory);
    drop(other);
    let other = Rc::downgrade(rc);
    let weak = differs(&before, &*memory);
    drop(other);
    for i in 0..4 {
        assert!(before[i] == (*memory)[i], "P21 counted down again");
    }
    (*memory)[strong] = kani::any();
    (*memory)[weak] = kani::any();
    // The counts as they are reported: at least one, and no more than any machine can have had.
    let (s, w) = (Rc::strong_count(rc), Rc::weak_count(rc));
    kani::assume(s >= 1 && s < LIMIT && w >= 1 && w < LIMIT);
    (s, w)
}

fn differs(a: &[usize; 4], b: &[usize; 4]) -> usize {
    let mut at = 4;
    for i in 0..4 {
        if a[i] != b[i] {
            assert!(at == 4 && b[i] == a[i].wrapping_add(1), "P21 one counter goes up by one");
            at = i;
        }
    }
    assert!(at < 4, "P21 owners and users are counted");
    at
}

macro_rules! state {
    ($drops:ident, $rc:ident, $s:ident, $w:ident, $ptr:ident, $len:ident) => {
        let $drops: &'static Drops = &Drops;
        let mut memory = Memory::new();
        let raw = &mut memory.0 as *mut [usize; 4];
        let $len: usize = kani::any();
        kani::assume($len >= Rc::<Tracked>::layout().size() && $len <= 32);
        let $ptr = raw as usize;
        #[allow(unused_mut)]
        let mut $rc = Rc::new($drops.make(1), unsafe { &mut *(raw as *mut Memory) }.part($len));
        assert!($rc.1 == 1 && $drops.of(1) == 0, "P21 shows the value");
        assert!(inside(&*$rc as *const Tracked as usize, mem::size_of::<Tracked>(), $ptr, $len), "P21 in the memory");
        assert!(Rc::strong_count(&$rc) == 1 && Rc::weak_count(&$rc) == 1, "P21 sole owner at first");
        let ($s, $w) = unsafe { any_state(raw, &$rc) };
    };
}

/// One more owner, then one less.
#[kani::proof]
#[kani::unwind(10)]
fn p21_clone_drop() {
    state!(drops, rc, s, w, ptr, len);
    let value = &*rc as *const Tracked;
    let other = rc.clone();
    assert!(Rc::strong_count(&rc) == s + 1 && Rc::strong_count(&other) == s + 1, "P21 one owner more");
    assert!(Rc::weak_count(&rc) == w && drops.of(1) == 0, "P21 nothing else changes");
    assert!(&*other as *const Tracked == value && Rc::ptr_eq(&rc, &other), "P21 the same value");
    drop(rc);
    assert!(Rc::strong_count(&other) == s && Rc::weak_count(&other) == w, "P21 one owner less");
    assert!(drops.of(1) == 0 && other.1 == 1, "P21 the value lives as long as it has owners");
    kani::cover!(s > 1, "COVER");
    mem::forget(other);
}

/// An owner leaves: the value goes with the last one. `weak` is left to look at the counters.
#[kani::proof]
#[kani::unwind(10)]
fn p21_drop() {
    state!(drops, rc, s, w, ptr, len);
    let weak = Rc::downgrade(&rc);
    drop(rc);
    assert!(weak.strong_count() == s - 1, "P21 one owner less");
    if s == 1 {
        assert!(drops.of(1) == 1, "P21 dropped once with the last owner");
        assert!(weak.weak_count() == w, "P21 the owners do not count as user any more");
        assert!(weak.upgrade().is_none(), "P21 no access to a dropped value");
        kani::cover!(true, "COVER last");
    } else {
        assert!(drops.of(1) == 0, "P21 the value lives as long as it has owners");
        assert!(weak.weak_count() == w + 1, "P21 nothing else changes");
        kani::cover!(true, "COVER not last");
    }
    mem::forget(weak);
    assert!(drops.of(1) == (s == 1) as u8);
}

/// Users of the memory.
#[kani::proof]
#[kani::unwind(10)]
fn p21_weak() {
    state!(drops, rc, s, w, ptr, len);
    let weak = Rc::downgrade(&rc);
    assert!(Rc::weak_count(&rc) == w + 1 && weak.weak_count() == w + 1, "P21 one user more");
    assert!(Rc::strong_count(&rc) == s && weak.strong_count() == s, "P21 nothing else changes");
    if kani::any() {
        kani::assume(w < LIMIT - 1);
        let more = weak.clone();
        assert!(weak.weak_count() == w + 2 && more.strong_count() == s, "P21 one user more");
        drop(more);
        assert!(weak.weak_count() == w + 1 && weak.strong_count() == s, "P21 one user less");
    }
    {
        let up = weak.upgrade().expect("P21 there are owners");
        assert!(Rc::strong_count(&rc) == s + 1 && Rc::weak_count(&rc) == w + 1, "P21 one owner more");
        assert!(Rc::ptr_eq(&rc, &up) && up.1 == 1, "P21 the same value");
    }
    assert!(Rc::strong_count(&rc) == s, "P21 one owner less");
    let Err(weak) = weak.try_unwrap() else {
        panic!("P21 the memory is in use");
    };
    drop(weak);
    assert!(Rc::weak_count(&rc) == w && Rc::strong_count(&rc) == s, "P21 one user less");
    assert!(drops.of(1) == 0, "P21 users do not own the value");
    kani::cover!(true, "COVER");
    mem::forget(rc);
}

/// Exclusive access.
#[kani::proof]
#[kani::unwind(10)]
fn p21_get_mut() {
    state!(drops, rc, s, w, ptr, len);
    let value = &*rc as *const Tracked as usize;
    match Rc::get_mut(&mut rc) {
        Some(r) => {
            assert!(s == 1 && w == 1, "P21 exclusive access for the only reference");
            assert!(r as *mut Tracked as usize == value, "P21 the same value");
            r.1 = 2;
            assert!(rc.1 == 2, "P21 writable");
            kani::cover!(true, "COVER");
        }
        None => assert!(s > 1 || w > 1, "P21 exclusive access for the only reference"),
    }
    assert!(Rc::strong_count(&rc) == s && Rc::weak_count(&rc) == w && drops.of(1) == 0, "P21 nothing changes");
    mem::forget(rc);
}

/// Taking the value out.
#[kani::proof]
#[kani::unwind(10)]
fn p21_try_unwrap() {
    state!(drops, rc, s, w, ptr, len);
    match Rc::try_unwrap(rc) {
        Ok((val, weak)) => {
            assert!(s == 1, "P21 only the sole owner takes the value");
            assert!(val.1 == 1 && drops.of(1) == 0, "P21 the value is taken out");
            assert!(weak.strong_count() == 0 && weak.weak_count() == w, "P21 no owner any more");
            assert!(weak.upgrade().is_none(), "P21 no access to a taken value");
            match weak.try_unwrap() {
                Ok(memory) => {
                    assert!(w == 1, "P21 memory comes back to the last user");
                    assert!(memory.extent() == Extent(ptr, len), "P21 all of the memory comes back");
                    kani::cover!(len > 24, "COVER memory");
                }
                Err(weak) => {
                    assert!(w > 1, "P21 memory comes back to the last user");
                    assert!(weak.weak_count() == w, "P21 nothing changes");
                    mem::forget(weak);
                }
            }
            assert!(drops.of(1) == 0, "P21 the value is taken out");
            drop(val);
            assert!(drops.of(1) == 1, "P21 dropped once");
        }
        Err(rc) => {
            assert!(s > 1, "P21 the sole owner takes the value");
            assert!(Rc::strong_count(&rc) == s && Rc::weak_count(&rc) == w && drops.of(1) == 0, "P21 nothing changes");
            assert!(rc.1 == 1, "P21 shows the value");
            kani::cover!(true, "COVER refused");
            mem::forget(rc);
        }
    }
}

/// Turning into memory with a value in it and back.
#[kani::proof]
#[kani::unwind(10)]
fn p21_raw() {
    state!(drops, rc, s, w, ptr, len);
    match Rc::into_raw(rc) {
        Ok(raw) => {
            assert!(s == 1 && w == 1, "P21 memory comes back to the only reference");
            assert!(raw.extent() == Extent(ptr, len), "P21 all of the memory comes back");
            assert!(drops.of(1) == 0, "P21 the value is still there");
            let mut raw = raw;
            let val = unsafe { raw.borrow_mut().into_mut() };
            assert!(val.1 == 1, "P21 the value is still there");
            val.1 = 2;
            let rc = unsafe { Rc::from_raw(raw) };
            assert!(rc.1 == 2 && Rc::strong_count(&rc) == 1 && Rc::weak_count(&rc) == 1, "P21 sole owner again");
            drop(rc);
            assert!(drops.of(2) == 1 && drops.of(1) == 0, "P21 dropped once with the last owner");
            kani::cover!(true, "COVER");
        }
        Err(rc) => {
            assert!(s > 1 || w > 1, "P21 memory comes back to the only reference");
            assert!(Rc::strong_count(&rc) == s && Rc::weak_count(&rc) == w && drops.of(1) == 0, "P21 nothing changes");
            mem::forget(rc);
        }
    }
}

/// After the value is gone, in any state: `w` users of the memory.
#[kani::proof]
#[kani::unwind(10)]
fn p21_memory() {
    state!(drops, rc, s, w, ptr, len);
    kani::assume(s == 1);
    let weak = Rc::downgrade(&rc);
    drop(rc);
    assert!(weak.weak_count() == w && weak.strong_count() == 0 && drops.of(1) == 1, "P21 value gone");
    if kani::any() {
        let more = weak.clone();
        assert!(weak.weak_count() == w + 1, "P21 one user more");
        let Err(more) = more.try_unwrap() else {
            panic!("P21 the memory is in use");
        };
        drop(more);
        assert!(weak.weak_count() == w, "P21 one user less");
    }
    match weak.try_unwrap() {
        Ok(memory) => {
            assert!(w == 1, "P21 memory comes back to the last user");
            assert!(memory.extent() == Extent(ptr, len), "P21 all of the memory comes back");
            let rc = Rc::new(drops.make(3), memory);
            assert!(rc.1 == 3 && Rc::strong_count(&rc) == 1 && Rc::weak_count(&rc) == 1, "P21 memory is reusable");
            kani::cover!(true, "COVER");
        }
        Err(weak) => {
            assert!(w > 1 && weak.weak_count() == w, "P21 memory comes back to the last user");
            mem::forget(weak);
        }
    }
    assert!(drops.of(1) == 1, "P21 never dropped again");
}

/// While the value is dropped its memory is not available and the value not accessible.
struct Curious<'a>(RefCell<Option<Weak<'a, Curious<'a>>>>);
static mut REFUSED: bool = false;
static mut GONE: bool = false;
impl Drop for Curious<'_> {
    fn drop(&mut self) {
        let weak = self.0.borrow_mut().take();
        if let Some(weak) = weak {
            unsafe {
                GONE = weak.upgrade().is_none();
                REFUSED = weak.try_unwrap().map(drop).is_err();
            }
        }
    }
}

#[kani::proof]
#[kani::unwind(10)]
fn p21_during_drop() {
    let mut memory = Buffer::<128>::new();
    let rc = Rc::new(Curious(RefCell::new(None)), memory.part(0, 128));
    let more = if kani::any() { Some(Rc::downgrade(&rc)) } else { None };
    let weak = Rc::downgrade(&rc);
    *rc.0.borrow_mut() = Some(weak);
    let before = more.is_some() as usize;
    drop(rc);
    assert!(unsafe { GONE }, "P21 no access to a value being dropped");
    assert!(unsafe { REFUSED }, "P21 the memory of a value being dropped is in use");
    if let Some(weak) = more {
        assert!(weak.strong_count() == 0 && weak.weak_count() == before, "P21 counted");
        assert!(weak.try_unwrap().is_ok(), "P21 memory comes back to the last user");
        kani::cover!(true, "COVER");
    }
}

macro_rules! values {
    ($($name:ident: $t:ty, $kind:ty, $any:ident;)*) => {$(
        /// In any memory large enough, for values of any type.
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let mut buf = <$kind>::new();
            let memory = buf.$any();
            let whole = memory.extent();
            let layout = Rc::<$t>::layout();
            assert!(layout.size() >= mem::size_of::<$t>() && layout.size() > 0, "P21 layout");
            assert!(layout.align() >= mem::align_of::<$t>(), "P21 layout");
            kani::assume(aligned(whole.0, layout.align()) && layout.size() <= whole.1);
            let (x, y): ($t, $t) = (kani::any(), kani::any());
            let rc = Rc::new(x, memory);
            let at = &*rc as *const $t as usize;
            assert!(*rc == x, "P21 shows the value");
            assert!(inside(at, mem::size_of::<$t>(), whole.0, whole.1), "P21 in the memory");
            assert!(aligned(at, mem::align_of::<$t>()), "P21 aligned");
            let weak = Rc::downgrade(&rc);
            let mut other = rc.clone();
            assert!(*AsRef::<$t>::as_ref(&other) == x && *Borrow::<$t>::borrow(&other) == x, "P21 shows the value");
            assert!(Rc::get_mut(&mut other).is_none(), "P21 no exclusive access");
            drop(rc);
            drop(weak);
            *Rc::get_mut(&mut other).unwrap() = y;
            assert!(*other == y && &*other as *const $t as usize == at, "P21 shows the value");
            let weak = Rc::downgrade(&other);
            let (val, weak2) = Rc::try_unwrap(other).ok().unwrap();
            assert!(val == y, "P21 the value is taken out");
            drop(weak2);
            assert!(weak.try_unwrap().ok().unwrap().extent() == whole, "P21 all of the memory comes back");
            kani::cover!(true, "COVER");
        }
    )*};
}
values! {
    p21_value_u8: u8, Buffer<56>, any;
    p21_value_three: Three, Buffer<56>, any;
    p21_value_mixed: Mixed, Buffer<56>, any;
    p21_value_u128: u128, Buffer<56>, any;
    p21_value_unit: (), Buffer<56>, any;
    p21_long_u8: u8, util::Memory, any_length;
    p21_long_mixed: Mixed, util::Memory, any_length;
    p21_long_wide: Wide, util::Memory, any_length;
    p21_long_u128: u128, util::Memory, any_length;
}

/// Memory that is too small or not aligned is refused loudly.
#[kani::proof]
#[kani::unwind(4)]
#[kani::should_panic]
fn p21_small_panics() {
    let mut buf = Buffer::<40>::new();
    let size = Rc::<u32>::layout().size();
    let _ = Rc::new(1u32, buf.part(8, size - 1));
}
#[kani::proof]
#[kani::unwind(4)]
#[kani::should_panic]
fn p21_unaligned_panics() {
    let mut buf = Buffer::<40>::new();
    let size = Rc::<u32>::layout().size();
    let _ = Rc::new(1u32, buf.part(2, size));
}

/// Comparisons and hashes are those of the values.
#[kani::proof]
#[kani::unwind(6)]
fn p21_comparisons() {
    let (mut m1, mut m2, mut m3, mut m4) = (Memory::new(), Memory::new(), Memory::new(), Memory::new());
    let (x, y): (Odd, Odd) = (kani::any(), kani::any());
    let a = Rc::new(x, m1.part(32));
    let b = Rc::new(y, m2.part(32));
    assert!((a == b) == (x == y) && (a != b) == (x != y), "P21 equality of the values");
    assert!((a < b) == (x < y) && (a <= b) == (x <= y), "P21 order of the values");
    assert!((a > b) == (x > y) && (a >= b) == (x >= y), "P21 order of the values");
    assert!(a.partial_cmp(&b) == x.partial_cmp(&y), "P21 order of the values");
    assert!(hash(&a) == hash(&x), "P21 hash of the value");
    assert!(!Rc::ptr_eq(&a, &b), "P21 different allocations");
    assert!((a == a) == (x == x) && (a != a) == (x != x), "P21 equality of the values");
    let same = Rc::clone(&a);
    assert!((a == same) == (x == x) && (a != same) == (x != x), "P21 equality of the values");
    assert!(a.partial_cmp(&same) == x.partial_cmp(&x), "P21 order of the values");
    assert!((a <= same) == (x <= x) && (a >= same) == (x >= x) && !(a < same) && !(a > same), "P21 order of the values");
    let c = Rc::new(x.0, m3.part(32));
    let d = Rc::new(y.0, m4.part(32));
    assert!(c.cmp(&d) == x.0.cmp(&y.0), "P21 order of the values");
    kani::cover!(x > y, "COVER");
}

/// A value of no size is dropped once, too, or handed out.
#[kani::proof]
#[kani::unwind(4)]
fn p21_no_size() {
    let dropped = || unsafe { ZST_DROPS };
    let mut m = Memory::new();
    let rc = Rc::new(ZstTracked, m.part(32));
    let other = if kani::any() { Some(rc.clone()) } else { None };
    let weak = if kani::any() { Some(Rc::downgrade(&rc)) } else { None };
    if kani::any() {
        match Rc::try_unwrap(rc) {
            Ok((val, _memory)) => {
                assert!(other.is_none() && dropped() == 0, "P21 handed out to the sole owner");
                drop(val);
                kani::cover!(true, "COVER handed out");
            }
            Err(rc) => {
                assert!(other.is_some() && dropped() == 0, "P21 only to the sole owner");
                drop(rc);
            }
        }
    } else {
        drop(rc);
    }
    assert!(dropped() == other.is_none() as usize, "P21 dropped once with the last owner");
    drop(other);
    assert!(dropped() == 1, "P21 dropped once with the last owner");
    if let Some(weak) = weak {
        assert!(weak.upgrade().is_none(), "P21 no access to a dropped value");
    }
    assert!(dropped() == 1, "P21 dropped once with the last owner");
}
