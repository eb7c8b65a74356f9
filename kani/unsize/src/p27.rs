//! P27: unsizing keeps where a pointer points to, what is there, and who owns it.
use alloc::boxed::Box;
use alloc::rc::{Rc, Weak as WeakRc};
use alloc::sync::{Arc, Weak as WeakArc};
use core::any::Any;
use core::fmt::{self, Debug, Display};
use core::future::Future;
use core::mem;
use core::pin::Pin;
use core::ptr::NonNull;
use unsize::{CoerceUnsized, Coercion};

static mut DROPS: usize = 0;

/// A value that is recognized by its content, and counts its drops.
#[derive(PartialEq)]
struct Val<P>(u32, P);
impl<P> Drop for Val<P> {
    fn drop(&mut self) {
        unsafe { DROPS += 1 }
    }
}

trait Look {
    fn look(&self) -> u32;
    fn vary(&mut self);
}
impl<P> Look for Val<P> {
    fn look(&self) -> u32 { self.0 }
    fn vary(&mut self) { self.0 ^= 1 }
}

fn look<T: Look + 'static>() -> Coercion<T, dyn Look> {
    unsafe { Coercion::new(|p| p as *const dyn Look) }
}

fn same<T>(d: &(impl ?Sized + Look), at: usize) {
    assert!(mem::size_of_val(d) == mem::size_of::<T>() && mem::align_of_val(d) == mem::align_of::<T>(), "P27 the same type");
    assert!(d as *const _ as *const u8 as usize == at, "P27 the same place");
}

macro_rules! borrowed {
    ($($name:ident: $t:ty, $make:expr;)*) => {$(
        #[kani::proof]
        fn $name() {
            let mut v: $t = $make;
            let is = v.0;
            let at = &v as *const $t as usize;
            {
                let d: &dyn Look = (&v).unsize(look());
                same::<$t>(d, at);
                assert!(d.look() == is, "P27 the same value");
            }
            {
                let d: &mut dyn Look = (&mut v).unsize(look());
                same::<$t>(d, at);
                d.vary();
                assert!(d.look() == is ^ 1, "P27 writable");
            }
            assert!(v.0 == is ^ 1, "P27 the same value");
            {
                let mut d: Pin<&mut dyn Look> = unsafe { Pin::new_unchecked(&mut v) }.unsize(look());
                same::<$t>(&*d, at);
                assert!(d.look() == is ^ 1, "P27 the same value");
                unsafe { d.as_mut().get_unchecked_mut() }.vary();
            }
            assert!(v.0 == is, "P27 the same value");
            {
                let p: *const dyn Look = (&v as *const $t).unsize(look());
                same::<$t>(unsafe { &*p }, at);
                assert!(unsafe { &*p }.look() == is, "P27 the same value");
            }
            {
                let p: *mut dyn Look = (&mut v as *mut $t).unsize(look());
                same::<$t>(unsafe { &*p }, at);
                unsafe { &mut *p }.vary();
            }
            assert!(v.0 == is ^ 1, "P27 the same value");
            {
                let p: NonNull<dyn Look> = NonNull::from(&mut v).unsize(look());
                same::<$t>(unsafe { p.as_ref() }, at);
                assert!(unsafe { p.as_ref() }.look() == is ^ 1, "P27 the same value");
            }
            assert!(unsafe { DROPS } == 0, "P27 nothing is dropped");
            kani::cover!(true, "COVER");
        }
    )*};
}
borrowed! {
    p27_borrowed_plain: Val<()>, Val(kani::any(), ());
    p27_borrowed_large: Val<[u64; 3]>, Val(kani::any(), [1, 2, 3]);
    p27_borrowed_packed: Val<u8>, Val(kani::any(), 5);
}

#[kani::proof]
#[kani::unwind(3)]
fn p27_box() {
    let b = Box::new(Val(kani::any(), 7u64));
    let (is, at) = (b.0, &*b as *const _ as usize);
    let mut d: Box<dyn Look> = b.unsize(look());
    same::<Val<u64>>(&*d, at);
    assert!(d.look() == is, "P27 the same value");
    d.vary();
    assert!(d.look() == is ^ 1 && unsafe { DROPS } == 0, "P27 owned");
    drop(d);
    assert!(unsafe { DROPS } == 1, "P27 dropped once by the owner");
    let p = Box::pin(Val(is, ()));
    let at = &*p as *const _ as usize;
    let d: Pin<Box<dyn Look>> = p.unsize(look());
    same::<Val<()>>(&*d, at);
    assert!(d.look() == is && unsafe { DROPS } == 1, "P27 the same value");
    drop(d);
    assert!(unsafe { DROPS } == 2, "P27 dropped once by the owner");
    kani::cover!(true, "COVER");
}

macro_rules! shared {
    ($($name:ident: $rc:ident, $weak:ident;)*) => {$(
        #[kani::proof]
        #[kani::unwind(3)]
        fn $name() {
            let a = $rc::new(Val(kani::any(), 7u64));
            let (is, at) = (a.0, &*a as *const _ as usize);
            let other: bool = kani::any();
            let b = if other { Some(a.clone()) } else { None };
            let w = $rc::downgrade(&a);
            let d: $rc<dyn Look> = a.unsize(look());
            same::<Val<u64>>(&*d, at);
            assert!(d.look() == is, "P27 the same value");
            assert!($rc::strong_count(&d) == 1 + other as usize && $rc::weak_count(&d) == 1, "P27 the same owners");
            {
                let e: $weak<dyn Look> = w.clone().unsize(look());
                assert!(e.as_ptr() as *const u8 as usize == at, "P27 the same place");
                assert!($rc::strong_count(&d) == 1 + other as usize && $rc::weak_count(&d) == 2, "P27 the same owners");
                let f = e.upgrade().unwrap();
                assert!(f.look() == is, "P27 the same value");
            }
            assert!($rc::weak_count(&d) == 1, "P27 the same owners");
            drop(d);
            assert!(unsafe { DROPS } == !other as usize, "P27 dropped once by the last owner");
            assert!(w.upgrade().is_some() == other, "P27 dropped once by the last owner");
            drop(b);
            assert!(unsafe { DROPS } == 1, "P27 dropped once by the last owner");
            // Also of a value that does not exist any more.
            let e: $weak<dyn Look> = w.unsize(look());
            assert!(e.upgrade().is_none() && e.strong_count() == 0, "P27 no owner any more");
            assert!(e.as_ptr() as *const u8 as usize == at, "P27 the same place");
            drop(e);
            assert!(unsafe { DROPS } == 1, "P27 dropped once by the last owner");
            kani::cover!(other, "COVER");
        }
    )*};
}
shared! {
    p27_rc: Rc, WeakRc;
    p27_arc: Arc, WeakArc;
}

/// A user that never had a value.
#[kani::proof]
fn p27_rc_dangling() {
    let w = WeakRc::<Val<u64>>::new();
    let e: WeakRc<dyn Look> = w.unsize(look());
    assert!(e.upgrade().is_none(), "P27 no owner");
    kani::cover!(true, "COVER");
}

/// Arrays become slices of all their elements.
#[kani::proof]
#[kani::unwind(5)]
fn p27_slice() {
    let mut a: [u16; 3] = kani::any();
    let (at, b) = (&a as *const _ as usize, a);
    let s: &[u16] = (&a).unsize(Coercion::to_slice());
    assert!(s.len() == 3 && s.as_ptr() as usize == at, "P27 all of the elements");
    assert!(s[0] == b[0] && s[1] == b[1] && s[2] == b[2], "P27 the same value");
    let s: &mut [u16] = (&mut a).unsize(Coercion::to_slice());
    assert!(s.len() == 3 && s.as_ptr() as usize == at, "P27 all of the elements");
    s[2] = 4;
    assert!(a[2] == 4 && a[0] == b[0], "P27 writable");
    let e: &[u64] = (&[0u64; 0]).unsize(Coercion::to_slice());
    assert!(e.len() == 0, "P27 all of the elements");
    let z: &[()] = (&[(); 5]).unsize(Coercion::to_slice());
    assert!(z.len() == 5, "P27 all of the elements");
    let d: Box<[Val<u8>]> = Box::new([Val(1, 1), Val(2, 2)]).unsize(Coercion::to_slice());
    assert!(d.len() == 2 && d[0].0 == 1 && d[1].0 == 2, "P27 all of the elements");
    assert!(unsafe { DROPS } == 0, "P27 owned");
    drop(d);
    assert!(unsafe { DROPS } == 2, "P27 each element is dropped once by the owner");
    let r: Rc<[Val<u8>]> = Rc::new([Val(1, 1), Val(2, 2)]).unsize(Coercion::to_slice());
    assert!(r.len() == 2 && r[1].0 == 2 && Rc::strong_count(&r) == 1, "P27 all of the elements");
    drop(r);
    assert!(unsafe { DROPS } == 4, "P27 each element is dropped once by the owner");
    kani::cover!(true, "COVER");
}

/// The provided coercions lead to the implementation of the value.
#[kani::proof]
fn p27_any() {
    let x: u32 = kani::any();
    let mut v = x;
    let a: &dyn Any = (&v).unsize(Coercion::to_any());
    assert!(a.downcast_ref::<u32>() == Some(&x) && a.downcast_ref::<i32>().is_none(), "P27 the same type");
    let a: &mut dyn Any = (&mut v).unsize(Coercion::to_any());
    *a.downcast_mut::<u32>().unwrap() ^= 1;
    assert!(v == x ^ 1, "P27 the same value");
    let b: Box<dyn Any> = Box::new(x).unsize(Coercion::to_any());
    assert!(*b.downcast::<u32>().unwrap() == x, "P27 the same value");
    kani::cover!(true, "COVER");
}

#[derive(Clone, Copy)]
struct Says(u8);
static mut SAID: (u8, u8) = (0, 0);
impl Debug for Says {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        unsafe { SAID = (1, self.0) };
        Ok(())
    }
}
impl Display for Says {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        unsafe { SAID = (2, self.0) };
        Ok(())
    }
}

struct Sink;
impl fmt::Write for Sink {
    fn write_str(&mut self, _: &str) -> fmt::Result { Ok(()) }
}

#[kani::proof]
#[kani::unwind(3)]
fn p27_format() {
    use fmt::Write;
    let v = Says(kani::any());
    let d: &dyn Debug = (&v).unsize(Coercion::to_debug());
    let _ = write!(Sink, "{:?}", d);
    assert!(unsafe { SAID } == (1, v.0), "P27 the implementation for the value");
    let d: &dyn Display = (&v).unsize(Coercion::to_display());
    let _ = write!(Sink, "{}", d);
    assert!(unsafe { SAID } == (2, v.0), "P27 the implementation for the value");
    kani::cover!(true, "COVER");
}

#[kani::proof]
fn p27_functions() {
    let (x, y): (u8, u8) = (kani::any(), kani::any());
    let f = |a: u8| a ^ x;
    let d: &dyn Fn(u8) -> u8 = (&f).unsize(Coercion::<_, dyn Fn(u8) -> u8>::to_fn());
    assert!(d(y) == y ^ x, "P27 the same function");
    let mut last = 0;
    let mut f = |a: u8, b: u8| { last = a; b };
    {
        let d: &mut dyn FnMut(u8, u8) -> u8 = (&mut f).unsize(Coercion::<_, dyn FnMut(u8, u8) -> u8>::to_fn_mut());
        assert!(d(y, 3) == 3, "P27 the same function");
    }
    assert!(last == y, "P27 the same function");
    let f = move || Val(7, x);
    let d: Box<dyn FnOnce() -> Val<u8>> = Box::new(f).unsize(Coercion::<_, dyn FnOnce() -> Val<u8>>::to_fn_once());
    assert!(d().1 == x, "P27 the same function");
    assert!(unsafe { DROPS } == 1, "P27 the same function");
    let f = |a: u8, b: u8, c: u8, d: u8, e: u8, f: u8| (a, b, c, d, e, f).3 ^ x;
    let d: &dyn Fn(u8, u8, u8, u8, u8, u8) -> u8 = (&f).unsize(Coercion::<_, dyn Fn(u8, u8, u8, u8, u8, u8) -> u8>::to_fn());
    assert!(d(0, 1, 2, y, 4, 5) == y ^ x, "P27 the same function");
    kani::cover!(true, "COVER");
}

#[kani::proof]
#[kani::unwind(4)]
fn p27_iterator() {
    let n: u8 = kani::any();
    kani::assume(n < 250);
    let b: Box<dyn Iterator<Item = u8>> = Box::new(n..n + 2).unsize(Coercion::to_iterator());
    let mut b = b;
    assert!(b.next() == Some(n) && b.next() == Some(n + 1) && b.next() == None, "P27 the same items");
    kani::cover!(true, "COVER");
}

#[kani::proof]
fn p27_future() {
    use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
    static VT: RawWakerVTable = RawWakerVTable::new(|p| RawWaker::new(p, &VT), |_| (), |_| (), |_| ());
    let waker = unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &VT)) };
    let n: u8 = kani::any();
    let b: Pin<Box<dyn Future<Output = u8>>> = Box::pin(core::future::ready(n)).unsize(Coercion::to_future());
    let mut b = b;
    assert!(b.as_mut().poll(&mut Context::from_waker(&waker)) == Poll::Ready(n), "P27 the same value");
    kani::cover!(true, "COVER");
}

/// The macro for any trait, and coercers with a state of their own.
#[kani::proof]
fn p27_custom() {
    let mut v = Val(kani::any(), 3u8);
    let (is, at) = (v.0, &v as *const _ as usize);
    let d: &dyn Look = (&v).unsize(Coercion!(to dyn Look));
    same::<Val<u8>>(d, at);
    assert!(d.look() == is, "P27 the same value");
    let mut times = 0;
    let with = unsafe { Coercion::new(|p: *const Val<u8>| { times += 1; p as *const dyn Look }) };
    let d: &mut dyn Look = (&mut v).unsize(with);
    d.vary();
    assert!(times == 1 && v.0 == is ^ 1, "P27 coerced once");
    let (c, d): (Coercion<Val<u8>, dyn Look>, _) = (look(), look());
    assert!(c == d.clone() && c.eq(&c), "P27 copies of a coercer are equal");
    let e: Coercion<Val<u8>, dyn Look> = c;
    let r: &dyn Look = (&v).unsize(e);
    assert!(r.look() == is ^ 1, "P27 the same value");
    kani::cover!(true, "COVER");
}
