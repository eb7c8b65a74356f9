//! P24: values of any alignment are aligned, in memory of the stack, apart from each other, and dropped where they are.
use exit_stack::ExitStack;
use std::cell::RefCell;
use std::mem;
use std::pin::Pin;
use vnative::*;

thread_local! {
    static DROPPED: RefCell<Vec<(usize, u16)>> = const { RefCell::new(Vec::new()) };
}
fn note(at: usize, value: u16) {
    DROPPED.with(|d| d.borrow_mut().push((at, value)));
}

fn check<M>(make: &mut dyn FnMut(Pin<&ExitStack<M>>, u16) -> Option<(usize, usize)>) {
    let mut stack: Pin<Box<ExitStack<M>>> = Box::pin(ExitStack::new());
    let (from, len) = (&*stack as *const _ as usize, mem::size_of_val(&*stack));
    for _ in 0..2 {
        DROPPED.with(|d| d.borrow_mut().clear());
        let mut places: Vec<(usize, usize)> = Vec::new();
        for i in 0..6 {
            if let Some((at, size)) = make(stack.as_ref(), i) {
                assert!(at >= from && at + size <= from + len, "P24 in memory of the stack");
                assert!(places.iter().all(|(p, s)| p + s <= at || at + size <= *p), "P24 apart from each other");
                places.push((at, size));
            }
        }
        stack.as_mut().pop_all();
        let dropped: Vec<usize> = DROPPED.with(|d| d.borrow().iter().map(|x| x.0).collect());
        assert!(places.iter().rev().map(|x| x.0).eq(dropped), "P24 dropped where they are");
    }
}

fn main() {
    macro_rules! values {
        ($($align:literal)*) => {$({
            #[repr(align($align))]
            struct Value(u16);
            impl Drop for Value {
                fn drop(&mut self) {
                    aligned(self as *const Value);
                    note(self as *const _ as usize, self.0);
                }
            }
            fn make<T>(stack: Pin<&ExitStack<T>>, i: u16) -> Option<(usize, usize)> {
                let (at, size) = match i % 2 {
                    0 => {
                        let p = stack.slot::<Value>()?.pin(Value(i));
                        aligned(&*p as *const Value);
                        assert!(p.0 == i, "P24 shows the value");
                        (&*p as *const _ as usize, mem::size_of::<Value>())
                    }
                    _ => {
                        let p = stack.slot::<Small>()?.pin(Small(i));
                        assert!(p.0 == i, "P24 shows the value");
                        (&*p as *const _ as usize, mem::size_of::<Small>())
                    }
                };
                Some((at, size))
            }
            check::<[u8; 9000]>(&mut make::<[u8; 9000]>);
            check::<[u64; 100]>(&mut make::<[u64; 100]>);
            check::<[Value; 3]>(&mut make::<[Value; 3]>);
            let stack: ExitStack<Value> = ExitStack::new();
            assert!(Box::pin(stack).as_ref().slot::<Value>().is_some(), "P24 room for a value");
        })*};
    }
    struct Small(u16);
    impl Drop for Small {
        fn drop(&mut self) {
            note(self as *const _ as usize, self.0);
        }
    }
    values!(2 4 8 16 32 64 128 256 512 1024);
}
