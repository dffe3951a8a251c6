//! Whole-grid iterators (row-major and column-major) under every sequence of front and back
//! consumption, to exhaustion and two steps beyond, for maxima (0,0) (0,3) (3,0) (2,1) (1,2)
//! (2,2), and the first 6 steps for (254,255) (65535,65535) and the integer tuples;
//! front-only to exhaustion for 33 to 66 cells. Ranges: every pair of corners (top-left at
//! most bottom-right) of (0,0) (3,0) (0,3) (2,2) (3,2) (2,4), and every 3x3 or smaller range at any
//! place of (255,254), (65535,65535), (u8,u8), (i16,i16). Lines and columns: every line
//! and column of (0,0) (3,2) (2,40) (40,2), of (i8,i8), and the first 5 of (65535,65535) (u32,u32). count, last, nth,
//! nth_back, rev, for_each, position and take at any point of any iterator of (0,0) (2,1) (1,2), nth around
//! 256 and 65536 in (599,299).
use crate::{u, v};
use sqrid::*;

/// expected k-th position, row-major (XF) or column-major
fn nth<const X: u16, const Y: u16, const XF: bool>(k: usize) -> (u16, u16) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    if XF {
        ((k % w) as u16, (k / w) as u16)
    } else {
        ((k / h) as u16, (k % h) as u16)
    }
}

fn ends<const X: u16, const Y: u16, const XF: bool>(steps: usize) {
    let n = (X as usize + 1) * (Y as usize + 1);
    let (mut lo, mut hi) = (0usize, n);
    let mut it = Pos::<X, Y>::iter_orientation::<XF>();
    for _ in 0..steps {
        let front = v::any_bool();
        let r = if front { it.next() } else { it.next_back() };
        let want = if lo == hi {
            None
        } else if front {
            lo += 1;
            Some(nth::<X, Y, XF>(lo - 1))
        } else {
            hi -= 1;
            Some(nth::<X, Y, XF>(hi))
        };
        check!(r.map(|p| p.tuple()) == want);
    }
}
fn grid<const X: u16, const Y: u16>() {
    let n = (X as usize + 1) * (Y as usize + 1) + 2;
    if v::any_bool() {
        ends::<X, Y, true>(n)
    } else {
        ends::<X, Y, false>(n)
    }
}
fn big<const X: u16, const Y: u16>() {
    if v::any_bool() {
        ends::<X, Y, true>(6)
    } else {
        ends::<X, Y, false>(6)
    }
}
/// the named constructors, front to exhaustion
fn front<const X: u16, const Y: u16>() {
    let n = (X as usize + 1) * (Y as usize + 1);
    let (mut a, mut b, mut c) = (Pos::<X, Y>::iter(), Pos::<X, Y>::iter_horizontal(), Pos::<X, Y>::iter_vertical());
    for k in 0..n {
        check!(a.next().map(|p| p.tuple()) == Some(nth::<X, Y, true>(k)));
        check!(b.next().map(|p| p.tuple()) == Some(nth::<X, Y, true>(k)));
        check!(c.next().map(|p| p.tuple()) == Some(nth::<X, Y, false>(k)));
    }
    check!(a.next().is_none() && b.next().is_none() && c.next().is_none());
    check!(a.next().is_none() && a.next_back().is_none() && c.next_back().is_none());
    let mut x = 0;
    for i in Pos::<X, Y>::iter_x() {
        check!(i.into_inner() == x);
        x += 1;
    }
    check!(x == X + 1);
    let mut y = 0;
    for i in Pos::<X, Y>::iter_y() {
        check!(i.into_inner() == y);
        y += 1;
    }
    check!(y == Y + 1);
}

macro_rules! tuple_ends {
    ($name:ident, $t:ty) => {
        fn $name() {
            // first steps from both ends, both orientations
            let (lo, hi) = (<$t>::MIN, <$t>::MAX);
            let (mut f, mut b) = (0 as $t, 0 as $t);
            let mut it = <($t, $t)>::iter_orientation::<true>();
            let mut iv = <($t, $t)>::iter_orientation::<false>();
            for _ in 0..6 {
                if v::any_bool() {
                    check!(it.next() == Some((lo + f, lo)));
                    check!(iv.next() == Some((lo, lo + f)));
                    f += 1;
                } else {
                    check!(it.next_back() == Some((hi - b, hi)));
                    check!(iv.next_back() == Some((hi, hi - b)));
                    b += 1;
                }
            }
        }
    };
}
tuple_ends!(te_u8, u8);
tuple_ends!(te_u64, u64);
tuple_ends!(te_u128, u128);
tuple_ends!(te_i8, i8);
tuple_ends!(te_i32, i32);

/// every range of a small grid
fn range<const X: u16, const Y: u16>() {
    let (tl, br) = (u::pos::<X, Y>(), u::pos::<X, Y>());
    v::assume(tl.x() <= br.x() && tl.y() <= br.y());
    let mut it = Pos::<X, Y>::iter_range(tl, br);
    let mut y = tl.y();
    while y <= br.y() {
        let mut x = tl.x();
        while x <= br.x() {
            check!(it.next().map(|p| p.tuple()) == Some((x, y)));
            x += 1;
        }
        y += 1;
    }
    check!(it.next().is_none());
    check!(it.next().is_none());
}
/// small ranges anywhere in a large grid
fn window<const X: u16, const Y: u16>() {
    let (tl, br) = (u::pos::<X, Y>(), u::pos::<X, Y>());
    v::assume(tl.x() <= br.x() && tl.y() <= br.y() && br.x() - tl.x() < 3 && br.y() - tl.y() < 3);
    let mut it = Pos::<X, Y>::iter_range(tl, br);
    let (w, h) = (br.x() - tl.x(), br.y() - tl.y());
    for y in 0..=h {
        for x in 0..=w {
            check!(it.next().map(|p| p.tuple()) == Some((tl.x() + x, tl.y() + y)));
        }
    }
    check!(it.next().is_none());
    check!(it.next().is_none());
}
macro_rules! tuple_window {
    ($name:ident, $t:ty, $bits:literal) => {
        fn $name() {
            type P = ($t, $t);
            let tl: P = (v::any($bits) as $t, v::any($bits) as $t);
            let (w, h) = (v::below(3) as $t, v::below(3) as $t);
            v::assume(tl.0 <= <$t>::MAX - w && tl.1 <= <$t>::MAX - h);
            let br = (tl.0 + w, tl.1 + h);
            let mut it = P::iter_range(tl, br);
            for y in 0..=h {
                for x in 0..=w {
                    check!(it.next() == Some((tl.0 + x, tl.1 + y)));
                }
            }
            check!(it.next().is_none());
            check!(it.next().is_none());
        }
    };
}
tuple_window!(tw_u8, u8, 8);
tuple_window!(tw_i16, i16, 16);

/// whole lines and columns
fn lines<const X: u16, const Y: u16>() {
    let p = u::pos::<X, Y>();
    let mut it = Pos::<X, Y>::iter_in_x(PosT::x(&p));
    for y in 0..=Y {
        check!(it.next().map(|q| q.tuple()) == Some((p.x(), y)));
    }
    check!(it.next().is_none() && it.next().is_none());
    let mut it = Pos::<X, Y>::iter_in_y(PosT::y(&p));
    for x in 0..=X {
        check!(it.next().map(|q| q.tuple()) == Some((x, p.y())));
    }
    check!(it.next().is_none() && it.next().is_none());
}
fn lines_first<const X: u16, const Y: u16>() {
    let p = u::pos::<X, Y>();
    let mut ix = Pos::<X, Y>::iter_in_x(PosT::x(&p));
    let mut iy = Pos::<X, Y>::iter_in_y(PosT::y(&p));
    for k in 0..5 {
        check!(ix.next().map(|q| q.tuple()) == Some((p.x(), k)));
        check!(iy.next().map(|q| q.tuple()) == Some((k, p.y())));
    }
}
fn lines_i8() {
    let p = (v::any(8) as i8, v::any(8) as i8);
    let mut ix = <(i8, i8)>::iter_in_x(p.0);
    let mut iy = <(i8, i8)>::iter_in_y(p.1);
    for k in i8::MIN..=i8::MAX {
        check!(ix.next() == Some((p.0, k)));
        check!(iy.next() == Some((k, p.1)));
    }
    check!(ix.next().is_none() && iy.next().is_none());
}
fn lines_u32() {
    let p = (v::any(32) as u32, v::any(32) as u32);
    let mut ix = <(u32, u32)>::iter_in_x(p.0);
    let mut iy = <(u32, u32)>::iter_in_y(p.1);
    for k in 0..5 {
        check!(ix.next() == Some((p.0, k)));
        check!(iy.next() == Some((k, p.1)));
    }
}

/// every method of Iterator
fn methods<const X: u16, const Y: u16>() {
    let n = (X as usize + 1) * (Y as usize + 1);
    match v::conc(v::below(6)) {
        0 => check!(u::ways2(Pos::<X, Y>::iter(), n, |k| Pos::try_from(nth::<X, Y, true>(k)).unwrap())),
        1 => check!(u::ways2(Pos::<X, Y>::iter_vertical(), n, |k| Pos::try_from(nth::<X, Y, false>(k)).unwrap())),
        2 => {
            let p = u::pos::<X, Y>();
            let at = |k: usize| Pos::new(p.x(), k as u16).unwrap();
            check!(u::ways(Pos::<X, Y>::iter_in_x(PosT::x(&p)), Y as usize + 1, at));
        }
        3 => {
            let p = u::pos::<X, Y>();
            let at = |k: usize| Pos::new(k as u16, p.y()).unwrap();
            check!(u::ways(Pos::<X, Y>::iter_in_y(PosT::y(&p)), X as usize + 1, at));
        }
        4 => {
            let (a, b) = (v::conc(v::below(X as u64 + 1)) as u16, v::conc(v::below(X as u64 + 1)) as u16);
            let (c, d) = (v::conc(v::below(Y as u64 + 1)) as u16, v::conc(v::below(Y as u64 + 1)) as u16);
            v::assume(a <= b && c <= d);
            let w = (b - a + 1) as usize;
            let it = Pos::<X, Y>::iter_range(Pos::new(a, c).unwrap(), Pos::new(b, d).unwrap());
            let at = |k: usize| Pos::new(a + (k % w) as u16, c + (k / w) as u16).unwrap();
            check!(u::ways(it, w * (d - c + 1) as usize, at));
        }
        _ => {
            let k = v::conc(v::below(n as u64 + 1)) as usize;
            let mut it = Pos::<X, Y>::iter();
            check!(it.by_ref().take(k).count() == k);
            check!(it.next().map(|p| p.tuple()) == if k < n { Some(nth::<X, Y, true>(k)) } else { None });
        }
    }
}
/// skipping far in large grids
fn skips<const X: u16, const Y: u16>() {
    let n = (X as usize + 1) * (Y as usize + 1);
    let k = [254, 255, 256, 257, 65534, 65535, 65536, 65537][v::conc(v::any(3)) as usize];
    match v::conc(v::any(2)) {
        0 => check!(Pos::<X, Y>::iter().nth(k).map(|p| p.tuple()) == Some(nth::<X, Y, true>(k))),
        1 => check!(Pos::<X, Y>::iter().nth_back(k).map(|p| p.tuple()) == Some(nth::<X, Y, true>(n - 1 - k))),
        2 => check!(Pos::<X, Y>::iter_vertical().nth(k).map(|p| p.tuple()) == Some(nth::<X, Y, false>(k))),
        _ => {
            let (tl, br) = (Pos::new(X / 2, 1).unwrap(), Pos::LAST);
            let w = (X - X / 2 + 1) as usize;
            let got = Pos::<X, Y>::iter_range(tl, br).nth(k).map(|p| p.tuple());
            check!(got == Some((X / 2 + (k % w) as u16, 1 + (k / w) as u16)));
        }
    }
}

dims! { "p04", methods; 0 0, 2 1, 1 2 }
dims! { thorough "p04", methods; 2 2, 0 7 }
dims! { "p04", skips; 599 299 }
dims! { "p04", grid; 0 0, 0 3, 3 0, 2 1, 1 2, 2 2 }
dims! { thorough "p04", grid; 3 2, 2 3, 0 9, 9 0 }
dims! { "p04", big; 254 255, 65535 65535 }
dims! { "p04", front; 32 0, 0 32, 32 1, 5 10, 255 1 }
dims! { "p04", range; 0 0, 3 0, 0 3, 2 2, 3 2, 2 4 }
dims! { thorough "p04", range; 5 5, 7 3 }
dims! { "p04", window; 255 254, 65535 65535 }
dims! { "p04", lines; 0 0, 3 2, 2 40, 40 2 }
dims! { thorough "p04", lines; 1 65535, 65535 1 }
dims! { "p04", lines_first; 65535 65535 }
inst! {
    h_p04_tuple_ends_u8 => te_u8;
    h_p04_tuple_ends_u64 => te_u64;
    h_p04_tuple_ends_u128 => te_u128;
    h_p04_tuple_ends_i8 => te_i8;
    h_p04_tuple_ends_i32 => te_i32;
    h_p04_tuple_window_u8 => tw_u8;
    h_p04_tuple_window_i16 => tw_i16;
    h_p04_lines_i8 => lines_i8;
    h_p04_lines_u32 => lines_u32;
}
