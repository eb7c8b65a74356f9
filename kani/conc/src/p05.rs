//! P05: concurrent use. One operation of one thread runs against an environment of any number of
//! other threads, which may take any number of steps before each atomic step of the operation.
//! Each atomic step is checked to be a claim (see crate `atomic`), and an operation hands out
//! only bytes from a claim of its own. Claims are disjoint as the level only rises.
use alloc_traits::{LocalAlloc, NonZeroLayout};
use atomic_polyfill::ghost;
use core::alloc::{GlobalAlloc, Layout};
use core::mem;
use core::ptr::NonNull;
use static_alloc::bump::{Failure, Level};
use static_alloc::Bump;
use vcommon::*;

fn bytes(size: usize) -> Layout {
    Layout::from_size_align(size, 1).unwrap()
}

fn raise_to<T>(b: &Bump<T>, c: usize) {
    if c > 0 {
        kani::assume(b.alloc(bytes(c)).is_some());
    }
}

fn level_of<T>(c: usize) -> Level {
    let twin = Bump::<T>::uninit();
    raise_to(&twin, c);
    twin.level()
}

struct Start {
    base: usize,
    cap: usize,
}

/// Any state of the allocator, without environment.
fn start<T>(b: &mut Bump<T>) -> Start {
    let p = b.alloc(bytes(1));
    kani::assume(p.is_some());
    b.reset();
    let cap = mem::size_of::<T>();
    let c: usize = kani::any();
    kani::assume(c <= cap);
    raise_to(b, c);
    Start { base: p.unwrap().as_ptr() as usize, cap }
}

fn fits(s: &Start, c: usize, l: Layout) -> bool {
    match align_up(s.base + c, l.align()) {
        Some(at) => inside(at, l.size(), s.base, s.cap),
        None => false,
    }
}

/// The postcondition of an operation that gave `r` for `l`.
fn post<T>(b: &Bump<T>, s: &Start, l: Layout, r: Option<NonNull<u8>>, level: Option<Level>) {
    let (changes, claim) = unsafe { (ghost::CHANGES, ghost::CLAIM) };
    ghost::end();
    match r {
        Some(p) => {
            let at = p.as_ptr() as usize;
            assert!(changes == 1, "P05 a success rests on a claim");
            assert!(
                at >= s.base + claim.0 && at + l.size() <= s.base + claim.1,
                "P05 hands out bytes of its own claim only"
            );
            assert!(aligned(at, l.align()), "P05 aligned");
            if let Some(lv) = level {
                assert!(lv == level_of::<T>(claim.1), "P05 reported level is the end of the claim");
                assert!(b.level() >= lv, "P05 the level does not fall behind the claim");
            }
            kani::cover!(true, "COVER success");
            kani::cover!(unsafe { ghost::OTHER.1 } > 0, "COVER success with interference");
        }
        None => {
            assert!(changes == 0, "P05 a failure claims nothing");
            kani::cover!(unsafe { ghost::OTHER.1 } > 0, "COVER failure with interference");
        }
    }
}

/// Retries until exhausted: each retry is caused by a rise of the level, so the number of retries
/// is bounded by the size of the memory, and the loop bound below is complete for it.
fn looping(f: impl FnOnce(&Bump<[u8; 3]>, Layout) -> (Option<NonNull<u8>>, Option<Level>)) {
    let mut b = Bump::<[u8; 3]>::uninit();
    let s = start(&mut b);
    let l = any_nonempty_layout();
    ghost::begin(s.cap);
    let (r, level) = f(&b, l);
    ghost::end();
    if r.is_none() {
        // Exhausted at some moment, and for good as the level only rises.
        let left = b.level();
        let i: usize = kani::any();
        kani::assume(i <= s.cap && level_of::<[u8; 3]>(i) == left);
        assert!(!fits(&s, i, l), "P05 fails only if the request does not fit");
    }
    post(&b, &s, l, r, level);
}

macro_rules! looping_harness {
    ($name:ident, |$b:ident, $l:ident| $call:expr) => {
        #[kani::proof]
        #[kani::unwind(8)]
        fn $name() { looping(|$b, $l| $call) }
    };
}
looping_harness!(p05_alloc, |b, l| (b.alloc(l), None));
looping_harness!(p05_get_layout, |b, l| match b.get_layout(l) {
    Some(a) => (Some(a.ptr), Some(a.level)),
    None => (None, None),
});
looping_harness!(p05_global_alloc, |b, l| (NonNull::new(unsafe { GlobalAlloc::alloc(b, l) }), None));
looping_harness!(p05_local_alloc, |b, l| {
    (LocalAlloc::alloc(b, NonZeroLayout::from_layout(l.into()).unwrap()).map(|a| a.ptr), None)
});

/// Typed allocation.
fn typed<V, T>() {
    let mut b = Bump::<T>::uninit();
    let s = start(&mut b);
    ghost::begin(s.cap);
    let r = b.get::<V>();
    match r {
        Some(a) => post(&b, &s, Layout::new::<V>(), Some(a.ptr.cast()), Some(a.level)),
        None => post(&b, &s, Layout::new::<V>(), None, None),
    }
}
#[kani::proof]
#[kani::unwind(8)]
fn p05_get_u16() { typed::<u16, [u8; 4]>() }

/// However often others are faster, a request is only refused if it does not fit. (A fixed schedule, for many retries.)
macro_rules! patient {
    ($name:ident, |$b:ident| $call:expr) => {
        #[kani::proof]
        #[kani::unwind(74)]
        fn $name() {
            let b = Bump::<[u8; 96]>::uninit();
            ghost::begin(96);
            unsafe { ghost::SCRIPT = Some(70) };
            let $b = &b;
            let done = $call;
            let left = unsafe { ghost::SCRIPT };
            ghost::end();
            assert!(done, "P05 fails only if the request does not fit");
            kani::cover!(left == Some(0), "COVER all the interference");
        }
    };
}
patient!(p05_patient_alloc, |b| b.alloc(bytes(1)).is_some());
patient!(p05_patient_get, |b| b.get::<u8>().is_some());
patient!(p05_patient_leak, |b| b.leak(7u8).is_ok());

/// Precise-location operations do not retry at all.
fn precise<T>(l: Layout, f: impl FnOnce(&Bump<T>, Level) -> Result<(NonNull<u8>, Option<Level>), Failure>) {
    let mut b = Bump::<T>::uninit();
    let s = start(&mut b);
    let e: usize = kani::any();
    kani::assume(e <= s.cap);
    let want = level_of::<T>(e);
    ghost::begin(s.cap);
    let r = f(&b, want);
    let claim = unsafe { ghost::CLAIM };
    match r {
        Ok((p, level)) => {
            assert!(claim.0 == e, "P05 claimed from exactly the requested level on");
            post(&b, &s, l, Some(p), level);
        }
        Err(why) => {
            post(&b, &s, l, None, None);
            match why {
                Failure::Mismatch { observed } => assert!(observed != want, "P05 mismatch only at another level"),
                Failure::Exhausted => assert!(!fits(&s, e, l), "P05 exhausted only if it does not fit"),
            }
        }
    }
}

macro_rules! precise_harness {
    ($name:ident, |$b:ident, $l:ident, $lv:ident| $call:expr) => {
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let $l = any_nonempty_layout();
            precise::<[u8; 64]>($l, |$b, $lv| $call)
        }
    };
}
precise_harness!(p05_alloc_at, |b, l, lv| b.alloc_at(l, lv).map(|a| (a.ptr, Some(a.level))));
precise_harness!(p05_get_layout_at, |b, l, lv| b.get_layout_at(l, lv).map(|a| (a.ptr, Some(a.level))));

#[kani::proof]
#[kani::unwind(4)]
fn p05_get_at() {
    precise::<[u8; 64]>(Layout::new::<u32>(), |b, lv| b.get_at::<u32>(lv).map(|a| (a.ptr.cast(), Some(a.level))))
}
#[kani::proof]
#[kani::unwind(4)]
fn p05_leak_at() {
    let v: u32 = kani::any();
    precise::<[u8; 16]>(Layout::new::<u32>(), |b, lv| match b.leak_at(v, lv) {
        Ok((r, level)) => {
            assert!(*r == v, "P05 value in place");
            Ok((NonNull::from(r).cast(), Some(level)))
        }
        Err(e) => Err(e.kind()),
    })
}
#[kani::proof]
#[kani::unwind(4)]
fn p05_leak_box_at() {
    let v: u32 = kani::any();
    precise::<[u8; 16]>(Layout::new::<u32>(), |b, lv| b.leak_box_at(v, lv).map(|r| {
        assert!(*r == v, "P05 value in place");
        (NonNull::from(&*r).cast(), None)
    }))
}

/// A zero-sized request claims nothing, and reports a mismatch only for another level.
#[kani::proof]
#[kani::unwind(4)]
fn p05_get_at_zst() {
    let mut b = Bump::<[u8; 64]>::uninit();
    let s = start(&mut b);
    let e: usize = kani::any();
    kani::assume(e <= s.cap);
    let want = level_of::<[u8; 64]>(e);
    ghost::begin(s.cap);
    let r = b.get_at::<()>(want);
    assert!(unsafe { ghost::CHANGES } == 0, "P05 zero-sized values need no claim");
    ghost::end();
    match r {
        Ok(a) => assert!(a.level == want && want <= b.level(), "P05 the level had been reached"),
        Err(Failure::Mismatch { observed }) => assert!(observed != want, "P05 mismatch only at another level"),
        Err(Failure::Exhausted) => assert!(false, "P05 zero-sized values always fit"),
    }
    kani::cover!(true, "COVER");
}

/// Reading the level has no effect, and the level that is read had been the level at some moment.
#[kani::proof]
#[kani::unwind(4)]
fn p05_level() {
    let mut b = Bump::<[u8; 64]>::uninit();
    let s = start(&mut b);
    let before = b.level();
    ghost::begin(s.cap);
    let l = b.level();
    assert!(unsafe { ghost::CHANGES } == 0, "P05 reading does not change the level");
    ghost::end();
    assert!(before <= l && l <= b.level(), "P05 level of some moment");
    kani::cover!(before < l, "COVER");
}

/// Reallocation under interference: moves into a claim of its own, with its content.
fn realloc(re: impl FnOnce(&Bump<[u8; 8]>, *mut u8, Layout, Layout) -> Option<NonNull<u8>>) {
    let mut b = Bump::<[u8; 8]>::uninit();
    let p = b.alloc(bytes(1));
    kani::assume(p.is_some());
    b.reset();
    let base = p.unwrap().as_ptr() as usize;
    // The memory had a smaller limit for all others until now.
    let (old, new) = (any_nonempty_layout(), any_nonempty_layout());
    kani::assume(old.align() == new.align());
    let Some(p) = b.alloc(old) else { return };
    let c: usize = kani::any();
    kani::assume(c <= 1);
    if c > 0 { let _ = b.alloc(bytes(c)); }
    let (i, x): (usize, u8) = (kani::any(), kani::any());
    kani::assume(i < old.size());
    unsafe { p.as_ptr().add(i).write(x) };
    ghost::begin(8);
    let r = re(&b, p.as_ptr(), old, new);
    let (changes, claim) = unsafe { (ghost::CHANGES, ghost::CLAIM) };
    ghost::end();
    match r {
        Some(q) if q == p => {
            assert!(changes == 0 && new.size() <= old.size(), "P05 kept in place");
        }
        Some(q) => {
            let at = q.as_ptr() as usize;
            assert!(changes == 1 && at >= base + claim.0 && at + new.size() <= base + claim.1,
                "P05 moves into a claim of its own");
            if i < new.size() {
                assert!(unsafe { q.as_ptr().add(i).read() } == x, "P05 content kept");
                kani::cover!(true, "COVER moved");
            }
        }
        None => assert!(changes == 0, "P05 a failure claims nothing"),
    }
}
#[kani::proof]
#[kani::unwind(12)]
fn p05_global_realloc() {
    realloc(|b, p, old, new| NonNull::new(unsafe { GlobalAlloc::realloc(b, p, old, new.size()) }))
}
