//! P13: stack allocations. The closure runs exactly once, with a slice of exactly the requested
//! length, aligned, and its result is passed on. Impossible lengths are refused up front.
use core::mem::{self, MaybeUninit};
use static_alloc::leaked::Alloca;
use vcommon::*;

#[derive(Clone, Copy)]
#[repr(align(16))]
#[allow(dead_code)]
struct A16(u8);
#[derive(Clone, Copy)]
#[repr(align(64))]
#[allow(dead_code)]
struct A64(u8);
#[derive(Clone, Copy)]
#[allow(dead_code)]
struct Three(u8, u8, u8);

/// Which lengths are accepted.
fn new<T>() {
    let n: usize = kani::any();
    let bytes = n.checked_mul(mem::size_of::<T>());
    let possible = bytes.map_or(false, |b| b <= isize::MAX as usize - 2 * mem::size_of::<T>() - mem::align_of::<T>());
    match Alloca::<T>::new(n) {
        Some(_) => {
            assert!(bytes.map_or(false, |b| b <= isize::MAX as usize), "P13 impossible lengths are refused");
            kani::cover!(true, "COVER accepted");
        }
        None => {
            assert!(!possible || n == usize::MAX, "P13 possible lengths are accepted");
        }
    }
}
macro_rules! new_harness {
    ($($name:ident, $t:ty;)*) => {$(
        #[kani::proof]
        fn $name() { new::<$t>() }
    )*};
}
new_harness! {
    p13_new_u8, u8;
    p13_new_u64, u64;
    p13_new_over, A64;
    p13_new_unit, ();
}

fn run<T>(n: usize) {
    let Some(alloca) = Alloca::<T>::new(n) else { return };
    let x: u32 = kani::any();
    let mut runs = 0;
    let r = alloca.run(|s: &mut [MaybeUninit<T>]| {
        runs += 1;
        assert!(s.len() == n, "P13 exactly the requested length");
        assert!(aligned(s.as_ptr() as usize, mem::align_of::<T>()), "P13 aligned");
        if n > 0 {
            // The whole slice is writable memory.
            let i: usize = kani::any();
            kani::assume(i < n);
            s[i] = MaybeUninit::uninit();
            if mem::size_of::<T>() > 0 {
                unsafe { (s.as_mut_ptr() as *mut u8).add(n * mem::size_of::<T>() - 1).write(1) };
            }
        }
        
        x
    });
    assert!(runs == 1, "P13 runs exactly once");
    assert!(r == x, "P13 passes the result on");
    kani::cover!(true, "COVER run");
}

macro_rules! run_harness {
    ($($name:ident, $t:ty, $n:expr;)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() { run::<$t>($n) }
    )*};
}
run_harness! {
    p13_run_unit, (), 12345;
    p13_run_unit_huge, (), usize::MAX - 1;
    p13_run_u8_1024, u8, 1023;
    p13_run_u8_1025, u8, 1024;
    p13_run_u8_2k, u8, 2047;
    p13_run_u8_4k, u8, 4095;
    p13_run_u8_8k, u8, 8191;
    p13_run_u8_16k, u8, 16383;
    p13_run_u8_32k, u8, 32767;
    p13_run_u8_64k, u8, 65535;
    p13_run_u8_64k_more, u8, 65536;
    p13_run_u8_128k, u8, (1 << 17) - 1;
    p13_run_u8_256k, u8, (1 << 18) - 1;
    p13_run_u8_512k, u8, (1 << 19) - 1;
    p13_run_u8_1m, u8, (1 << 20) - 1;
    p13_run_a64_1k, A64, 15;
    p13_run_a64_2k, A64, 31;
    p13_run_a64_4k, A64, 63;
    p13_run_a64_8k, A64, 127;
    p13_run_a64_16k, A64, 255;
    p13_run_a64_32k, A64, 511;
    p13_run_a64_64k, A64, 1023;
    p13_run_a64_128k, A64, 2047;
    p13_run_a64_256k, A64, 4095;
    p13_run_a64_512k, A64, 8191;
    p13_run_u64_2k_more, u64, 256;
}

macro_rules! upto_harness {
    ($($name:ident, $t:ty, $lo:literal, $hi:literal;)*) => {$(
        /// Every length of a range, one after the other.
        #[kani::proof]
        #[kani::unwind(40)]
        fn $name() {
            let mut n = $lo;
            while n <= $hi {
                run::<$t>(n);
                n += 1;
            }
        }
    )*};
}
upto_harness! {
    p13_upto_u8, u8, 0, 33;
    p13_upto_three, Three, 0, 22;
    p13_upto_u64, u64, 0, 17;
    p13_upto_a16, A16, 0, 9;
    p13_upto_a64, A64, 0, 9;
    p13_upto_unit, (), 0, 3;
    p13_upto_u8_64, u8, 60, 66;
    p13_upto_u8_128, u8, 124, 130;
    p13_upto_u8_256, u8, 252, 258;
    p13_upto_u8_512, u8, 508, 514;
}
