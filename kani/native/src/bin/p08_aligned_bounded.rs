//! P08: values without size and values of any alignment are placed at aligned places and show their value.
use static_alloc::{leaked::LeakBox, Bump};
use vnative::*;

fn sized<V: PartialEq>(value: impl Fn(u16) -> V) {
    static BUMP: Bump<[u8; 1 << 16]> = Bump::uninit();
    let own = Box::new(Bump::<[u8; 1 << 16]>::uninit());
    for b in [&BUMP, &*own] {
        for i in 0..64 {
            let (from, to) = (b as *const _ as usize, b as *const _ as usize + std::mem::size_of_val(b));
            let at = match i % 4 {
                0 => b.leak(value(i)).ok().map(|r| r as *const V),
                1 => b.leak_at(value(i), b.level()).ok().map(|r| r.0 as *const V),
                2 => b.leak_box(value(i)).map(|r| LeakBox::leak(r) as *const V),
                _ => b.leak_box_at(value(i), b.level()).ok().map(|r| LeakBox::leak(r) as *const V),
            };
            if let Some(at) = at {
                aligned(at);
                assert!(at as usize >= from && at as usize + std::mem::size_of::<V>() <= to, "P08 in the memory of the allocator");
                assert!(unsafe { &*at } == &value(i), "P08 shows the value");
            }
            b.alloc(std::alloc::Layout::new::<[u8; 3]>());
        }
    }
}

fn main() {
    let b: Bump<[u8; 64]> = Bump::uninit();
    macro_rules! check {
        ($t:path) => {
            aligned::<$t>(b.leak($t).ok().expect("P08 always room without size"));
            aligned::<$t>(b.leak_at($t, b.level()).ok().expect("P08 always room without size").0);
            aligned::<$t>(LeakBox::leak(b.leak_box($t).expect("P08 always room without size")));
            aligned::<$t>(LeakBox::leak(b.leak_box_at($t, b.level()).ok().expect("P08 always room without size")));
            b.alloc(std::alloc::Layout::new::<u8>());
        };
    }
    zero_sized!(check);
    macro_rules! values {
        ($($align:literal)*) => {$({
            #[repr(align($align))]
            #[derive(PartialEq)]
            struct Value(u16);
            sized(Value);
        })*};
    }
    values!(2 8 16 32 64 128 256 512 1024 4096);
    sized(|i| [i as u8; 5]);
    sized(|i| [i; 700]);
}
