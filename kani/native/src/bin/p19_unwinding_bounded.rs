//! P19: nothing is dropped twice or seen uninitialized if the source panics.
use std::mem::MaybeUninit;
use vnative::*;
use without_alloc::{FixedVec, Uninit};
fn main() {
    for before in 0..4 {
        for bad in 0..4 {
            for extend in [false, true] {
                let drops = Drops::default();
                let mut memory: MaybeUninit<[Value; 6]> = MaybeUninit::uninit();
                let mut vec = FixedVec::from_unaligned(Uninit::from(&mut memory));
                for i in 0..before {
                    assert!(vec.push(Value(&drops, i)).is_ok());
                }
                let source = (0..4).map(|i| if i == bad { panic!("as told") } else { Value(&drops, before + i) });
                let fails = panics(|| if extend { vec.extend(source) } else { drop(vec.fill(source)) });
                let len = vec.len();
                assert!(len >= before && len <= if fails { before + bad } else { 6 }, "P19 no more than was taken");
                assert!(vec.iter().map(|v| v.1).eq(0..len), "P19 the vector is what was there and was taken");
                assert!(drops.dropped.borrow().iter().all(|i| *i >= len), "P19 nothing in it is dropped");
                drop(vec);
                for i in 0..len {
                    assert_eq!(drops.of(i), 1, "P19 dropped once");
                }
            }
        }
    }
}
