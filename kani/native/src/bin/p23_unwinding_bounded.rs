//! P23: no value is dropped twice, and the last pinned first, if dropping one of them panics.
use exit_stack::ExitStack;
use std::pin::Pin;
use vnative::*;
fn main() {
    for n in 0..6 {
        for bad in 0..=n {
            for way in 0..3 {
                let drops: &'static Drops = Box::leak(Box::default());
                let mut stack: Pin<Box<ExitStack<[Value<'static>; 20]>>> = Box::pin(ExitStack::new());
                for i in 0..n {
                    stack.as_ref().slot().expect("P23 there is room").pin(Value(drops, i));
                }
                drops.panic_on.set(Some(bad));
                match way {
                    0 => { panics(|| stack.as_mut().pop_all()); }
                    1 => {
                        let other = std::array::from_fn(|i| Value(drops, 100 + i));
                        panics(|| { stack.as_mut().set(other); });
                    }
                    _ => { panics(|| stack = Box::pin(ExitStack::new())); }
                }
                let seen: Vec<_> = drops.dropped.borrow().iter().copied().filter(|i| *i < 100).collect();
                assert!(seen.iter().copied().eq((0..n).rev().take(seen.len())), "P23 the last pinned first");
                panics(move || drop(stack));
                for i in 0..n {
                    assert!(drops.of(i) <= 1, "P23 none is dropped twice");
                }
            }
        }
    }
}
