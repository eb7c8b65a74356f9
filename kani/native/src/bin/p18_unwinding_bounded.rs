//! P18: no element is dropped twice or seen again if dropping one of them panics.
use std::mem::MaybeUninit;
use vnative::*;
use without_alloc::{FixedVec, Uninit};
fn main() {
    let n = 5;
    for start in 0..=n {
        for end in start..=n {
            for (taken, bad) in (0..n * n).map(|x| (x / n, x % n)) {
                let drops = Drops::default();
                let mut memory: MaybeUninit<[Value; 5]> = MaybeUninit::uninit();
                let mut vec = FixedVec::from_unaligned(Uninit::from(&mut memory));
                for i in 0..n {
                    assert!(vec.push(Value(&drops, i)).is_ok());
                }
                drops.panic_on.set(Some(bad));
                panics(|| {
                    let mut drain = vec.drain(start..end);
                    for _ in 0..taken {
                        drain.next();
                    }
                });
                assert!(vec.iter().all(|v| drops.of(v.1) == 0), "P18 none is seen again");
                panics(move || drop(vec));
                for i in 0..n {
                    assert!(drops.of(i) <= 1, "P18 none is dropped twice");
                }
            }
        }
    }
}
