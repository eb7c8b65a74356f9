//! P23: every pinned value is dropped exactly once, last pinned first.
use crate::util::*;

type Mem = [u64; 12];

fn state() -> (usize, [u8; MAX], [u8; MAX]) {
    unsafe { (COUNT, ORDER, DROPS) }
}

fn order(expected: &[u8]) {
    let (count, order, drops) = state();
    assert!(count == expected.len(), "P23 all of the values are dropped, and no other");
    let i: usize = kani::any();
    kani::assume(i < expected.len());
    assert!(order[i] == expected[i], "P23 last pinned is dropped first");
    assert!(drops[expected[i] as usize] == 1, "P23 each is dropped once");
}

/// Slots prepared in one order, pinned into in either order (`SWAP`), or not at all (`SKIP`), with another value on top, then
/// emptied and used again (`POP`) or ended at once.
fn pin_and_end<A: Value, B: Value, C: Value, const SWAP: bool, const SKIP: u8, const POP: bool>() {
    let mut place = Place::<Mem>::new();
    let mut pins = [0u8; 4];
    let mut n = 0;
    {
        let stack = place.stack();
        let a = stack.slot::<A>().expect("P23 there is room");
        let b = stack.slot::<B>().expect("P23 there is room");
        let mut b = Some(b);
        if SWAP && SKIP != 2 {
            pinned(b.take().unwrap().pin(B::make(2, 20)), 2, 20);
            pins[n] = B::make(2, 0).forget();
            n += 1;
        }
        if SKIP != 1 {
            pinned(a.pin(A::make(1, 10)), 1, 10);
            pins[n] = A::make(1, 0).forget();
            n += 1;
        }
        if !SWAP && SKIP != 2 {
            pinned(b.take().unwrap().pin(B::make(2, 20)), 2, 20);
            pins[n] = B::make(2, 0).forget();
            n += 1;
        }
        let c = stack.slot::<C>().expect("P23 there is room");
        pinned(c.pin(C::make(3, 30)), 3, 30);
        pins[n] = C::make(3, 0).forget();
        n += 1;
    }
    assert!(state().0 == 0, "P23 none is dropped early");
    let mut last_first = [0u8; 4];
    for i in 0..3 {
        if i < n {
            last_first[i] = pins[n - 1 - i];
        }
    }
    if POP {
        place.stack_mut().pop_all();
        order(&last_first[..n]);
        place.stack_mut().pop_all();
        order(&last_first[..n]);
        pinned(place.stack().slot::<A>().expect("P23 there is room").pin(A::make(4, 40)), 4, 40);
        assert!(state().0 == n, "P23 none is dropped early");
        last_first[n] = A::make(4, 0).forget();
        n += 1;
    }
    place.end();
    let (count, order, _) = state();
    assert!(count == n, "P23 all of the values are dropped, and no other");
    let i: usize = kani::any();
    kani::assume(i < n);
    assert!(order[i] == last_first[i], "P23 last pinned is dropped first");
    kani::cover!(true, "COVER");
}

macro_rules! orders {
    ($($name:ident: $a:ty, $b:ty, $c:ty, $swap:expr, $skip:expr, $pop:expr;)*) => {$(
        #[kani::proof]
        #[kani::unwind(5)]
        fn $name() {
            pin_and_end::<$a, $b, $c, $swap, $skip, $pop>();
        }
    )*};
}

trait Forget {
    fn forget(self) -> u8;
}
impl<T: Value> Forget for T {
    fn forget(self) -> u8 {
        let id = self.id();
        core::mem::forget(self);
        id
    }
}

orders! {
    p23_small_popped_deep: Small, Small, Small, false, 0, true;
    p23_small_swapped: Small, Small, Small, true, 0, false;
    p23_small_swapped_popped_deep: Small, Small, Small, true, 0, true;
    p23_mixed_deep: Wide, Small, Nothing, false, 0, false;
    p23_mixed_popped: Wide, Small, Nothing, false, 0, true;
    p23_mixed_first_unused_deep: Wide, Small, Nothing, false, 1, false;
    p23_mixed_first_unused_popped_deep: Wide, Small, Nothing, false, 1, true;
    p23_mixed_second_unused: Wide, Small, Nothing, false, 2, false;
    p23_mixed_second_unused_popped_deep: Wide, Small, Nothing, false, 2, true;
    p23_mixed_swapped_deep: Wide, Small, Nothing, true, 0, false;
    p23_mixed_swapped_popped_deep: Wide, Small, Nothing, true, 0, true;
    p23_mixed_swapped_first_unused: Wide, Small, Nothing, true, 1, false;
    p23_mixed_swapped_first_unused_popped_deep: Wide, Small, Nothing, true, 1, true;
    p23_mixed_swapped_second_unused_deep: Wide, Small, Nothing, true, 2, false;
    p23_mixed_swapped_second_unused_popped_deep: Wide, Small, Nothing, true, 2, true;
    p23_over_popped_deep: Small, Over, Wide, false, 0, true;
    p23_over_swapped: Small, Over, Wide, true, 0, false;
    p23_over_swapped_popped_deep: Small, Over, Wide, true, 0, true;
    p23_zst_popped_deep: Nothing, Wide, Small, false, 0, true;
    p23_zst_swapped: Nothing, Wide, Small, true, 0, false;
    p23_zst_swapped_popped_deep: Nothing, Wide, Small, true, 0, true;
}

/// Values with a destructor and others without, in any order.
#[kani::proof]
#[kani::unwind(5)]
fn p23_plain() {
    let mut place = Place::<[u64; 12]>::new();
    let mut last_first = [0u8; 3];
    let mut n = 0;
    for i in 0..3 {
        if kani::any() {
            let slot = place.stack().slot::<Small>().expect("P23 there is room");
            pinned(slot.pin(Small::make(i, 0)), i, 0);
            last_first = [i, last_first[0], last_first[1]];
            n += 1;
        } else {
            let slot = place.stack().slot::<Plain>().expect("P23 there is room");
            assert!(slot.pin(Plain(i)).0 == i, "P23 shows the value");
        }
    }
    assert!(state().0 == 0, "P23 none is dropped early");
    if kani::any() {
        place.stack_mut().pop_all();
        order(&last_first[..n]);
    }
    place.end();
    let (count, order, drops) = state();
    assert!(count == n, "P23 all of the values are dropped, and no other");
    let i: usize = kani::any();
    kani::assume(i < n);
    assert!(order[i] == last_first[i], "P23 last pinned is dropped first");
    assert!(drops[order[i] as usize] == 1, "P23 each is dropped once");
    kani::cover!(n == 2, "COVER");
}

/// Setting a value drops all others, in order, and makes place for exactly that one.
#[kani::proof]
#[kani::unwind(5)]
fn p23_set() {
    let mut place = Place::<Wide>::new();
    let first: bool = kani::any();
    let mut expected = [0u8; 4];
    let mut n = 0;
    if first {
        if let Some(s) = place.stack().slot::<Small>() {
            pinned(s.pin(Small::make(1, 0)), 1, 0);
            expected[n] = 1;
            n += 1;
        }
    }
    pinned(place.stack_mut().set(Wide::make(2, 5)), 2, 5);
    order(&expected[..n]);
    pinned(place.stack_mut().set(Wide::make(3, 6)), 3, 6);
    expected[n] = 2;
    n += 1;
    order(&expected[..n]);
    place.end();
    expected[n] = 3;
    n += 1;
    order(&expected[..n]);
    kani::cover!(n == 3, "COVER");
}

/// A value that finds no slot is not affected; a full stack still drops everything.
#[kani::proof]
#[kani::unwind(5)]
fn p23_full() {
    let mut place = Place::<Small>::new();
    let mut n = 0;
    for _ in 0..3 {
        match place.stack().slot::<Small>() {
            Some(s) => {
                pinned(s.pin(Small::make(n, 0)), n, 0);
                n += 1;
            }
            None => break,
        }
    }
    assert!(n >= 1, "P23 room for at least one value");
    place.end();
    let (count, order, _) = state();
    assert!(count == n as usize && order[0] == n - 1, "P23 all of the values are dropped, and no other");
    kani::cover!(n < 3, "COVER full");
}

/// Values that are pinned locally are dropped with the others.
#[kani::proof]
#[kani::unwind(5)]
fn p23_local() {
    let mut place = Place::<Mem>::new();
    let local = 3u8;
    struct Borrows<'a>(&'a u8);
    static mut SEEN: u8 = 0;
    impl Drop for Borrows<'_> {
        fn drop(&mut self) {
            unsafe {
                SEEN += *self.0;
                ORDER[COUNT] = 6;
                COUNT += 1;
            }
        }
    }
    {
        let stack = place.stack();
        pinned(stack.slot::<Small>().unwrap().pin(Small::make(1, 0)), 1, 0);
        let v = unsafe { place.stack().slot::<Borrows<'static>>().unwrap().pin_local(core::mem::transmute(Borrows(&local))) };
        assert!(*v.0 == 3, "P23 shows the value");
        pinned(place.stack().slot::<Small>().unwrap().pin(Small::make(2, 0)), 2, 0);
    }
    place.end();
    let (count, order, _) = state();
    assert!(count == 3 && order[0] == 2 && order[1] == 6 && order[2] == 1, "P23 last pinned is dropped first");
    assert!(unsafe { SEEN } == 3, "P23 each is dropped once");
    kani::cover!(true, "COVER");
}

/// Many values one after the other (bounded).
#[kani::proof]
#[kani::unwind(12)]
fn p23_many_bounded() {
    static mut NEXT: u8 = 10;
    static mut GOOD: bool = true;
    struct Numbered(u8);
    impl Drop for Numbered {
        fn drop(&mut self) {
            unsafe {
                NEXT = NEXT.wrapping_sub(1);
                GOOD &= self.0 == NEXT;
            }
        }
    }
    let mut place = Place::<[u64; 64]>::new();
    for _ in 0..2 {
        for i in 0..10 {
            let slot = place.stack().slot::<Numbered>().expect("P23 there is room");
            slot.pin(Numbered(i));
        }
        assert!(unsafe { NEXT } == 10, "P23 none is dropped early");
        place.stack_mut().pop_all();
        assert!(unsafe { GOOD && NEXT == 0 }, "P23 each is dropped once, last pinned first");
        unsafe { NEXT = 10 };
    }
    kani::cover!(true, "COVER");
}
