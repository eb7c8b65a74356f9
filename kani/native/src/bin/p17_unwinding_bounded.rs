//! P17: no element is dropped twice or seen again if dropping one of them panics.
use std::mem::MaybeUninit;
use vnative::*;
use without_alloc::{FixedVec, Uninit};
fn main() {
    for n in 0..6 {
        for keep in 0..=n {
            for bad in 0..n {
                for way in 0..2 {
                    let drops = Drops::default();
                    let mut memory: MaybeUninit<[Value; 6]> = MaybeUninit::uninit();
                    let mut vec = FixedVec::from_unaligned(Uninit::from(&mut memory));
                    for i in 0..n {
                        assert!(vec.push(Value(&drops, i)).is_ok());
                    }
                    drops.panic_on.set(Some(bad));
                    panics(|| match way {
                        0 => vec.truncate(keep),
                        _ => for _ in keep..n {
                            drop(vec.pop());
                        },
                    });
                    assert!(vec.iter().all(|v| drops.of(v.1) == 0), "P17 none is seen again");
                    panics(move || drop(vec));
                    for i in 0..n {
                        assert!(drops.of(i) <= 1, "P17 none is dropped twice");
                    }
                }
            }
        }
    }
}
