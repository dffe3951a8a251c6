//! Whole-grid iterators in both orientations after any sequence of up to all front/back steps for
//! maxima (0,0) (0,3) (3,0) (2,1) (1,2); ranges, lines and columns with any corners after every
//! number of steps for (0,0) (2,2) (3,2) (2,40); fresh iterators of (255,254) (65535,65535)
//! and of the integer tuples; direction iterators at every step. The number of items left is
//! found by exhausting a copy.
use crate::{u, v};
use sqrid::*;

#[inline(always)]
fn truthful<I: Iterator + Copy>(it: &I, max: usize) -> bool {
    let mut n = 0;
    let mut c = *it;
    while n <= max && c.next().is_some() {
        n += 1;
    }
    let (lo, hi) = it.size_hint();
    lo <= n && hi.map_or(true, |h| h >= n)
}

fn ends<const X: u16, const Y: u16, const XF: bool>() {
    let n = (X as usize + 1) * (Y as usize + 1);
    let mut it = Pos::<X, Y>::iter_orientation::<XF>();
    check!(it.size_hint() == (n, Some(n)));
    for _ in 0..n + 1 {
        if v::any_bool() {
            it.next();
        } else {
            it.next_back();
        }
        check!(truthful(&it, n));
    }
}
fn grid<const X: u16, const Y: u16>() {
    ends::<X, Y, true>();
    ends::<X, Y, false>();
}
fn range<const X: u16, const Y: u16>() {
    let (tl, br) = (u::pos::<X, Y>(), u::pos::<X, Y>());
    v::assume(tl.x() <= br.x() && tl.y() <= br.y());
    let n = (X as usize + 1) * (Y as usize + 1);
    let mut it = Pos::<X, Y>::iter_range(tl, br);
    check!(truthful(&it, n));
    while it.next().is_some() {
        check!(truthful(&it, n));
    }
    check!(truthful(&it, n));
}
fn lines<const X: u16, const Y: u16>() {
    let p = u::pos::<X, Y>();
    let mut it = Pos::<X, Y>::iter_in_x(PosT::x(&p));
    for _ in 0..Y + 2 {
        check!(truthful(&it, Y as usize + 1));
        it.next();
    }
    let mut it = Pos::<X, Y>::iter_in_y(PosT::y(&p));
    for _ in 0..X + 2 {
        check!(truthful(&it, X as usize + 1));
        it.next();
    }
}
fn fresh<const X: u16, const Y: u16>() {
    let n = (X as usize + 1) * (Y as usize + 1);
    check!(Pos::<X, Y>::iter().size_hint() == (n, Some(n)));
    check!(Pos::<X, Y>::iter_vertical().size_hint() == (n, Some(n)));
    let p = u::pos::<X, Y>();
    // a range, line or column has at least one item; its true size bounds the hint
    let q = u::pos::<X, Y>();
    v::assume(p.x() <= q.x() && p.y() <= q.y());
    let m = ((q.x() - p.x()) as usize + 1) * ((q.y() - p.y()) as usize + 1);
    let (lo, hi) = Pos::<X, Y>::iter_range(p, q).size_hint();
    check!(lo <= m && hi.map_or(true, |h| h >= m));
    let (lo, hi) = Pos::<X, Y>::iter_in_x(PosT::x(&p)).size_hint();
    check!(lo <= Y as usize + 1 && hi.map_or(true, |h| h >= Y as usize + 1));
    let (lo, hi) = Pos::<X, Y>::iter_in_y(PosT::y(&p)).size_hint();
    check!(lo <= X as usize + 1 && hi.map_or(true, |h| h >= X as usize + 1));
}
macro_rules! tuple {
    ($name:ident, $t:ty, $bits:literal) => {
        fn $name() {
            type P = ($t, $t);
            // 2^(2*bits) items: more than usize::MAX from 32 bits on
            let n: u128 = if $bits >= 64 { u128::MAX } else { 1u128 << (2 * $bits) };
            let ok = |h: (usize, Option<usize>), n: u128| (h.0 as u128) <= n && h.1.map_or(true, |x| x as u128 >= n);
            check!(ok(P::iter().size_hint(), n));
            check!(ok(P::iter_vertical().size_hint(), n));
            if $bits < 32 {
                check!(P::iter().size_hint() == (n as usize, Some(n as usize)));
            }
            let mut it = P::iter();
            it.next();
            check!(ok(it.size_hint(), n - 1));
            it.next_back();
            check!(ok(it.size_hint(), n - 2));
            let p = (v::any128() as $t, v::any128() as $t);
            let l: u128 = if $bits >= 128 { u128::MAX } else { 1u128 << ($bits % 128) };
            let mut it = P::iter_in_x(p.0);
            check!(ok(it.size_hint(), l));
            it.next();
            check!(ok(it.size_hint(), l - 1));
            let mut it = P::iter_in_y(p.1);
            check!(ok(it.size_hint(), l));
            it.next();
            check!(ok(it.size_hint(), l - 1));
        }
    };
}
tuple!(t_u8, u8, 8);
tuple!(t_u16, u16, 16);
tuple!(t_u32, u32, 32);
tuple!(t_u64, u64, 64);
tuple!(t_u128, u128, 128);
tuple!(t_i8, i8, 8);
tuple!(t_i16, i16, 16);
tuple!(t_i32, i32, 32);

/// known finding 1: the hint of the direction iterator is constant
fn dirs<const D: bool>() {
    let n = if D { 8 } else { 4 };
    let mut it = Dir::iter::<D>();
    check!(it.size_hint() == (n, Some(n)));
    for k in 1..n + 2 {
        it.next();
        let left = n - k.min(n);
        let (lo, hi) = it.size_hint();
        check!(hi.map_or(true, |h| h >= left));
        if lo > left {
            check!(lo == n);
            v::known(1);
        }
    }
}

dims! { "p05", grid; 0 0, 0 3, 3 0, 2 1, 1 2 }
dims! { thorough "p05", grid; 2 2, 0 8, 8 0 }
dims! { "p05", range; 0 0, 2 2, 3 2 }
dims! { thorough "p05", range; 4 4 }
dims! { "p05", lines; 0 0, 2 2, 3 2, 2 40 }
dims! { "p05", fresh; 0 0, 3 2, 255 254, 65535 65535 }
inst! {
    h_p05_tuple_u8 => t_u8;
    h_p05_tuple_u16 => t_u16;
    h_p05_tuple_u32 => t_u32;
    h_p05_tuple_u64 => t_u64;
    h_p05_tuple_u128 => t_u128;
    h_p05_tuple_i8 => t_i8;
    h_p05_tuple_i16 => t_i16;
    h_p05_tuple_i32 => t_i32;
    h_p05_dirs_4 => dirs::<false>;
    h_p05_dirs_8 => dirs::<true>;
}
