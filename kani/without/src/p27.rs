//! P27: unsizing keeps where a pointer points to, what is there, and who owns it. Here: memory and boxes.
use crate::util::*;
use core::mem;
use unsize::{CoerceUnsize, Coercion};
use vcommon::*;
use without_alloc::boxed::Box;
use without_alloc::uninit::{Uninit, UninitView};

macro_rules! to_dyn {
    ($($name:ident: $val:expr;)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            // With a trait of its own: there is one implementation only.
            trait Look {
                fn look(&self) -> u8;
                fn set(&mut self, to: u8);
            }
            struct Val<P>(u8, #[allow(dead_code)] P, &'static Drops);
            impl<P> Look for Val<P> {
                fn look(&self) -> u8 { self.0 }
                fn set(&mut self, to: u8) { self.0 = to }
            }
            impl<P> Drop for Val<P> {
                fn drop(&mut self) {
                    drop(self.2.make(self.0 as usize));
                }
            }
            fn make<P>(x: u8, p: P, d: &'static Drops) -> Val<P> { Val(x, p, d) }
            fn to_dyn<T: Look + 'static>(_: &T) -> Coercion<T, dyn Look> {
                unsafe { Coercion::new(|p| p as *const dyn Look) }
            }
            fn memory<'a, T>(u: Uninit<'a, ()>, _: &T) -> Option<Uninit<'a, T>> { u.cast().ok() }

            let drops: &'static Drops = &Drops;
            let mut buf = Memory::new();
            let (x, y): (u8, u8) = (kani::any(), kani::any());
            kani::assume(x < 8 && y < 8);
            let val = make(x, $val, drops);
            let coerce = to_dyn(&val);
            let (size, align) = (mem::size_of_val(&val), mem::align_of_val(&val));
            let Some(m) = memory(buf.any(), &val) else { mem::forget(val); return };
            let whole = m.extent();

            // Memory only.
            let u: Uninit<dyn Look> = m.unsize(coerce.clone());
            assert!(u.as_ptr() as *mut u8 as usize == whole.0 && u.byte_capacity() == whole.1, "P27 all of the memory");
            let m = unsafe { Uninit::from_memory(u.as_non_null().cast::<u8>(), u.byte_capacity()) };
            let m = memory(m, &val).unwrap();
            let b: Box<dyn Look> = Box::new(val, m).unsize(coerce);
            let at: *const dyn Look = &*b;
            assert!(at as *const u8 as usize == whole.0, "P27 the same place");
            assert!(mem::size_of_val(&*b) == size && mem::align_of_val(&*b) == align, "P27 the same type");
            assert!(b.look() == x, "P27 the same value");
            let mut b = b;
            b.set(y);
            assert!(b.look() == y && drops.of(y as usize) == 0, "P27 the same value");
            if kani::any() {
                drop(b);
                assert!(drops.of(y as usize) == 1, "P27 dropped once by the owner");
                kani::cover!(true, "COVER");
            } else {
                let raw = Box::into_raw(b);
                assert!(raw.as_ptr() as *mut u8 as usize == whole.0 && raw.byte_capacity() == whole.1, "P27 all of the memory");
                assert!(drops.of(y as usize) == 0, "P27 owned");
                let b = unsafe { Box::from_raw(raw) };
                let r = Box::leak(b);
                assert!(r.look() == y && r as *mut dyn Look as *mut u8 as usize == whole.0, "P27 the same value");
                assert!(drops.of(y as usize) == 0, "P27 owned");
            }
        }
    )*};
}
to_dyn! {
    p27_memory_plain: ();
    p27_memory_large: [7u64; 3];
    p27_memory_byte: 3u8;
}

#[kani::proof]
#[kani::unwind(5)]
fn p27_memory_slice() {
    let mut buf = Buffer::<16>::new();
    let x: [u16; 3] = kani::any();
    let Ok(m) = buf.any().cast::<[u16; 3]>() else { return };
    let whole = m.extent();
    let u: Uninit<[u16]> = m.unsize(Coercion::to_slice());
    assert!(u.as_ptr() as *mut u16 as usize == whole.0 && u.byte_capacity() == whole.1, "P27 all of the memory");
    assert!((unsafe { &*(u.as_ptr() as *const [mem::MaybeUninit<u16>]) }).len() == 3, "P27 all of the elements");
    let m = unsafe { Uninit::from_memory(u.as_non_null().cast::<u8>(), u.byte_capacity()) }.cast::<[u16; 3]>().ok().unwrap();
    let b: Box<[u16]> = Box::new(x, m).unsize(Coercion::to_slice());
    assert!(b.len() == 3 && b.as_ptr() as usize == whole.0, "P27 all of the elements");
    assert!(b[0] == x[0] && b[1] == x[1] && b[2] == x[2], "P27 the same value");
    kani::cover!(whole.1 > 7, "COVER");
}

#[kani::proof]
#[kani::unwind(4)]
fn p27_view() {
    trait Look {}
    impl Look for u32 {}
    let buf = Buffer::<16>::new();
    let Ok(v) = buf.any_view().cast::<u32>() else { return };
    let (at, len) = (v.as_ptr() as usize, v.byte_capacity());
    let d: UninitView<dyn Look> = v.unsize(unsafe { Coercion::new(|p| p as *const dyn Look) });
    assert!(d.as_ptr() as *const u8 as usize == at && d.byte_capacity() == len, "P27 all of the memory");
    assert!(d.as_non_null().as_ptr() as *mut u8 as usize == at, "P27 the same place");
    kani::cover!(len > 4, "COVER");
}
