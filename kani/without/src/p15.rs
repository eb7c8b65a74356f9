//! P15: every way to split uninitialized memory partitions it exactly.
use crate::util::*;
use core::mem;
use vcommon::*;


/// A split that may fail, without effect then; `fits` decides.
macro_rules! split_post {
    ($whole:ident, $me:ident, $r:ident, $fits:expr, |$part:ident| $extra:block) => {
        match $r {
            Some($part) => {
                assert!($fits, "P15 only what is there can be split off");
                $extra
                kani::cover!($part.extent().1 > 0 && $me.extent().1 > 0, "COVER split");
            }
            None => {
                assert!(!$fits, "P15 what is there can be split off");
                assert!($me.extent() == $whole, "P15 failure leaves everything");
                kani::cover!(true, "cover refused");
            }
        }
    };
}

macro_rules! both {
    ($($name:ident, $view:ident, |$me:ident, $whole:ident| $body:block)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let mut buf = Memory::new();
            #[allow(unused_mut)]
            let mut $me = buf.any();
            let $whole = $me.extent();
            $body
        }
        #[kani::proof]
        #[kani::unwind(4)]
        fn $view() {
            let buf = Memory::new();
            #[allow(unused_mut)]
            let mut $me = buf.any_view();
            let $whole = $me.extent();
            $body
        }
    )*};
}

both! {
    p15_layout, p15_view_layout, |me, whole| {
        let l = any_layout();
        let at = align_up(whole.0, l.align());
        let fits = at.map_or(false, |at| inside(at, l.size(), whole.0, whole.1));
        let r = me.split_layout(l);
        split_post!(whole, me, r, fits, |part| {
            assert!(partition(whole, me.extent(), part.extent()), "P15 exact partition");
            assert!(Some(part.extent().0) == at, "P15 first aligned address");
            assert!(part.fits(l), "P15 fits what it was split off for");
            kani::cover!(me.extent().1 > 0, "COVER padding");
        });
    }
    p15_cast_u32, p15_view_cast_u32, |me, whole| {
        let at = align_up(whole.0, 4).unwrap();
        let fits = inside(at, 4, whole.0, whole.1);
        let r = me.split_cast::<u32>();
        split_post!(whole, me, r, fits, |part| {
            assert!(partition(whole, me.extent(), part.extent()), "P15 exact partition");
            assert!(part.extent().0 == at, "P15 first aligned address");
        });
    }
    p15_cast_mixed, p15_view_cast_mixed, |me, whole| {
        let at = align_up(whole.0, mem::align_of::<Mixed>()).unwrap();
        let fits = inside(at, mem::size_of::<Mixed>(), whole.0, whole.1);
        let r = me.split_cast::<Mixed>();
        split_post!(whole, me, r, fits, |part| {
            assert!(partition(whole, me.extent(), part.extent()), "P15 exact partition");
            assert!(part.extent().0 == at, "P15 first aligned address");
        });
    }
    p15_cast_over, p15_view_cast_over, |me, whole| {
        let at = align_up(whole.0, 16).unwrap();
        let fits = inside(at, 16, whole.0, whole.1);
        let r = me.split_cast::<Over>();
        split_post!(whole, me, r, fits, |part| {
            assert!(partition(whole, me.extent(), part.extent()), "P15 exact partition");
            assert!(part.extent().0 == at, "P15 first aligned address");
        });
    }
    p15_cast_wide, p15_view_cast_wide, |me, whole| {
        let at = align_up(whole.0, 128);
        let fits = at.map_or(false, |at| inside(at, 128, whole.0, whole.1));
        let r = me.split_cast::<Wide>();
        split_post!(whole, me, r, fits, |part| {
            assert!(partition(whole, me.extent(), part.extent()), "P15 exact partition");
            assert!(Some(part.extent().0) == at, "P15 first aligned address");
        });
    }
    p15_slice_wide, p15_view_slice_wide, |me, whole| {
        let at = align_up(whole.0, 128);
        let fits = at.map_or(false, |at| inside(at, 0, whole.0, whole.1));
        let r = me.split_slice::<Wide>();
        split_post!(whole, me, r, fits, |part| {
            assert!(partition(whole, me.extent(), part.extent()), "P15 exact partition");
            assert!(Some(part.extent().0) == at, "P15 first aligned address");
            assert!(part.capacity() == part.extent().1 / 128, "P15 as many elements as there is room for");
            assert!(part.as_non_null().len() == part.capacity(), "P15 pointer of the same length");
        });
    }
    p15_slice_u16, p15_view_slice_u16, |me, whole| {
        let at = align_up(whole.0, 2).unwrap();
        let fits = inside(at, 0, whole.0, whole.1);
        let r = me.split_slice::<u16>();
        split_post!(whole, me, r, fits, |part| {
            assert!(partition(whole, me.extent(), part.extent()), "P15 exact partition");
            assert!(part.extent().0 == at, "P15 first aligned address");
            assert!(part.capacity() == part.extent().1 / 2, "P15 as many elements as there is room for");
            assert!(part.as_non_null().len() == part.capacity(), "P15 pointer of the same length");
        });
    }
    p15_slice_mixed, p15_view_slice_mixed, |me, whole| {
        let at = align_up(whole.0, mem::align_of::<Mixed>()).unwrap();
        let fits = inside(at, 0, whole.0, whole.1);
        let r = me.split_slice::<Mixed>();
        split_post!(whole, me, r, fits, |part| {
            assert!(partition(whole, me.extent(), part.extent()), "P15 exact partition");
            assert!(part.extent().0 == at, "P15 first aligned address");
            assert!(part.capacity() == part.extent().1 / mem::size_of::<Mixed>(), "P15 as many elements as there is room for");
            assert!(part.as_non_null().len() == part.capacity(), "P15 pointer of the same length");
        });
    }
}

/// Splits of memory already typed.
macro_rules! typed {
    ($($name:ident, $view:ident, $t:ty, $cast:ident, |$me:ident, $whole:ident| $body:block)*) => {$(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let mut buf = Memory::new();
            let Ok(mut $me) = buf.any().$cast::<$t>() else { return };
            let $whole = $me.extent();
            $body
        }
        #[kani::proof]
        #[kani::unwind(4)]
        fn $view() {
            let buf = Memory::new();
            let Ok(mut $me) = buf.any_view().$cast::<$t>() else { return };
            let $whole = $me.extent();
            $body
        }
    )*};
}

macro_rules! at_byte_body {
    ($me:ident, $whole:ident, $t:ty) => {{
        let at: usize = kani::any();
        let fits = at <= $whole.1 && at >= mem::size_of::<$t>();
        let r = $me.split_at_byte(at);
        split_post!($whole, $me, r, fits, |part| {
            assert!(partition($whole, $me.extent(), part.extent()), "P15 exact partition");
            assert!($me.extent().1 == at, "P15 split where requested");
        });
    }};
}
macro_rules! to_fit_body {
    ($me:ident, $whole:ident, $t:ty) => {{
        let part = $me.split_to_fit();
        assert!(partition($whole, $me.extent(), part.extent()), "P15 exact partition");
        assert!($me.extent().1 == mem::size_of::<$t>(), "P15 shrunk to the size of the value");
        kani::cover!(part.extent().1 > 0, "COVER rest");
    }};
}
typed! {
    p15_at_byte_unit, p15_view_at_byte_unit, (), cast, |me, whole| { at_byte_body!(me, whole, ()) }
    p15_at_byte_u16, p15_view_at_byte_u16, u16, cast, |me, whole| { at_byte_body!(me, whole, u16) }
    p15_at_byte_mixed, p15_view_at_byte_mixed, Mixed, cast, |me, whole| { at_byte_body!(me, whole, Mixed) }
    p15_to_fit_unit, p15_view_to_fit_unit, (), cast, |me, whole| { to_fit_body!(me, whole, ()) }
    p15_to_fit_three, p15_view_to_fit_three, Three, cast, |me, whole| { to_fit_body!(me, whole, Three) }
    p15_to_fit_mixed, p15_view_to_fit_mixed, Mixed, cast, |me, whole| { to_fit_body!(me, whole, Mixed) }
    p15_to_fit_wide, p15_view_to_fit_wide, Wide, cast, |me, whole| { to_fit_body!(me, whole, Wide) }
}

macro_rules! slices {
    ($($t:ty, $zst:literal: $at:ident, $vat:ident, $first:ident, $vfirst:ident, $last:ident, $vlast:ident, $fit:ident, $vfit:ident;)*) => {
        typed! {$(
            $at, $vat, $t, cast_slice, |me, whole| {
                let at: usize = kani::any();
                let cap = me.capacity();
                let fits = at <= cap;
                let r = me.split_at(at);
                split_post!(whole, me, r, fits, |part| {
                    assert!(partition(whole, me.extent(), part.extent()), "P15 exact partition");
                    if !$zst {
                        assert!(me.extent().1 == at * mem::size_of::<$t>(), "P15 split where requested");
                        assert!(me.capacity() == at && part.capacity() == cap - at, "P15 elements are divided");
                    }
                    assert!(me.as_non_null().len() == me.capacity(), "P15 pointer of the same length");
                    assert!(part.as_non_null().len() == part.capacity(), "P15 pointer of the same length");
                    kani::cover!(true, "COVER at");
                });
            }
            $first, $vfirst, $t, cast_slice, |me, whole| {
                let cap = me.capacity();
                let fits = cap >= 1;
                let r = me.split_first();
                split_post!(whole, me, r, fits, |part| {
                    assert!(partition(whole, part.extent(), me.extent()), "P15 exact partition, first in front");
                    assert!(part.extent().1 == mem::size_of::<$t>(), "P15 first element exactly");
                    assert!(aligned(part.extent().0, mem::align_of::<$t>()), "P15 aligned");
                    if !$zst {
                        assert!(me.capacity() == cap - 1, "P15 one element less");
                    }
                    assert!(me.as_non_null().len() == me.capacity(), "P15 pointer of the same length");
                    kani::cover!(true, "COVER first");
                });
            }
            $last, $vlast, $t, cast_slice, |me, whole| {
                let cap = me.capacity();
                let fits = cap >= 1;
                let r = me.split_last();
                split_post!(whole, me, r, fits, |part| {
                    assert!(partition(whole, me.extent(), part.extent()), "P15 exact partition, last behind");
                    assert!(part.extent().1 >= mem::size_of::<$t>(), "P15 last element");
                    assert!(aligned(part.extent().0, mem::align_of::<$t>()), "P15 aligned");
                    if !$zst {
                        assert!(me.capacity() == cap - 1, "P15 one element less");
                        assert!(me.extent().1 == (cap - 1) * mem::size_of::<$t>(), "P15 all but the last element");
                    }
                    assert!(me.as_non_null().len() == me.capacity(), "P15 pointer of the same length");
                    kani::cover!(true, "COVER last");
                });
            }
            $fit, $vfit, $t, cast_slice, |me, whole| {
                let cap = me.capacity();
                let part = me.shrink_to_fit();
                assert!(partition(whole, me.extent(), part.extent()), "P15 exact partition");
                assert!(me.capacity() == cap, "P15 no element is lost");
                if !$zst {
                    assert!(part.extent().1 < mem::size_of::<$t>(), "P15 nothing but the remainder is split off");
                    assert!(me.extent().1 == cap * mem::size_of::<$t>(), "P15 shrunk to the elements");
                } else {
                    assert!(me.extent().1 == 0, "P15 shrunk to the elements");
                }
                assert!(me.as_non_null().len() == me.capacity(), "P15 pointer of the same length");
                kani::cover!(true, "COVER fit");
            }
        )*}
    };
}
slices! {
    u8, false: p15_u8_at, p15_view_u8_at, p15_u8_first, p15_view_u8_first, p15_u8_last, p15_view_u8_last, p15_u8_fit, p15_view_u8_fit;
    u32, false: p15_u32_at, p15_view_u32_at, p15_u32_first, p15_view_u32_first, p15_u32_last, p15_view_u32_last, p15_u32_fit, p15_view_u32_fit;
    Wide, false: p15_wide_at, p15_view_wide_at, p15_wide_first, p15_view_wide_first, p15_wide_last, p15_view_wide_last, p15_wide_fit, p15_view_wide_fit;
    Mixed, false: p15_mixed_at, p15_view_mixed_at, p15_mixed_first, p15_view_mixed_first, p15_mixed_last, p15_view_mixed_last, p15_mixed_fit, p15_view_mixed_fit;
    ZstOver, true: p15_zst_at, p15_view_zst_at, p15_zst_first, p15_view_zst_first, p15_zst_last, p15_view_zst_last, p15_zst_fit, p15_view_zst_fit;
}

/// Parts split off earlier are independent of each other: writing one leaves the other.
#[kani::proof]
#[kani::unwind(4)]
fn p15_independent() {
    let mut buf = Buffer::<24>::new();
    let mut me = buf.any();
    let Some(a) = me.split_cast::<Mixed>() else { return };
    let mut a = a;
    let mut rest = a.split_to_fit();
    let Some(b) = rest.split_cast::<u32>() else { return };
    let (x, y): (Mixed, u32) = (kani::any(), kani::any());
    let ra = a.init(x);
    let rb = b.init(y);
    assert!(*ra == x && *rb == y, "P15 parts are independent");
    kani::cover!(true, "COVER");
}
