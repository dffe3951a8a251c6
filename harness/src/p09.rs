//! All pairs of positions of the grids with maxima (0,0) (0,5) (5,0) (3,3) (4,6) (255,255)
//! (32767,32767) (65535,65535), with and without diagonals; all pairs of tuple positions of every
//! integer type; whole walks between all pairs in (3,3) (5,2).
use crate::{u, v};
use sqrid::*;

fn step<const X: u16, const Y: u16>() {
    let (p, q) = (u::pos::<X, Y>(), u::pos::<X, Y>());
    let man = |a: Pos<X, Y>, b: Pos<X, Y>| u::absdiff(a.x(), b.x()) + u::absdiff(a.y(), b.y());
    let cheb = |a: Pos<X, Y>, b: Pos<X, Y>| u::absdiff(a.x(), b.x()).max(u::absdiff(a.y(), b.y()));
    match direction_to::<Pos<X, Y>, false>(&p, &q) {
        None => check!(p == q),
        Some(d) => {
            check!(p != q);
            let (dx, dy) = u::vec_of(d);
            check!(dx == 0 || dy == 0);
            match p + d {
                Ok(n) => check!(man(n, q) + 1 == man(p, q)),
                Err(_) => check!(false),
            }
        }
    }
    match direction_to::<Pos<X, Y>, true>(&p, &q) {
        None => check!(p == q),
        Some(d) => {
            check!(p != q);
            let (dx, dy) = u::vec_of(d);
            check!(dx == (q.x() as i64 - p.x() as i64).signum());
            check!(dy == (q.y() as i64 - p.y() as i64).signum());
            match p + d {
                Ok(n) => check!(cheb(n, q) + 1 == cheb(p, q)),
                Err(_) => check!(false),
            }
        }
    }
}

fn walk<const X: u16, const Y: u16>() {
    let (p, q) = (u::pos::<X, Y>(), u::pos::<X, Y>());
    let (mut a, mut n) = (p, 0);
    while let Some(d) = direction_to::<Pos<X, Y>, false>(&a, &q) {
        let Ok(b) = a + d else {
            check!(false);
            return;
        };
        a = b;
        n += 1;
        check!(n <= X as usize + Y as usize);
    }
    check!(a == q && n == u::absdiff(p.x(), q.x()) + u::absdiff(p.y(), q.y()));
    let (mut a, mut n) = (p, 0);
    while let Some(d) = direction_to::<Pos<X, Y>, true>(&a, &q) {
        let Ok(b) = a + d else {
            check!(false);
            return;
        };
        a = b;
        n += 1;
        check!(n <= X.max(Y) as usize);
    }
    check!(a == q && n == u::absdiff(p.x(), q.x()).max(u::absdiff(p.y(), q.y())));
}

macro_rules! tuple {
    ($name:ident, $t:ty) => {
        fn $name() {
            v::covers(3);
            type P = ($t, $t);
            let any = || -> P { (v::any128() as $t, v::any128() as $t) };
            let (p, q) = (any(), any());
            let sgn = |a: $t, b: $t| (b > a) as i64 - (b < a) as i64;
            let (sx, sy) = (sgn(p.0, q.0), sgn(p.1, q.1));
            match direction_to::<P, true>(&p, &q) {
                None => {
                    v::cover(0);
                    check!(p == q);
                }
                Some(d) => check!(u::vec_of(d) == (sx, sy)),
            }
            match direction_to::<P, false>(&p, &q) {
                None => check!(p == q),
                Some(d) => {
                    let (dx, dy) = u::vec_of(d);
                    if dx != 0 {
                        v::cover(1);
                        check!(dy == 0 && dx == sx);
                    } else {
                        v::cover(2);
                        check!(dy != 0 && dy == sy);
                    }
                }
            }
        }
    };
}
tuple!(t_u8, u8);
tuple!(t_u16, u16);
tuple!(t_u32, u32);
tuple!(t_u64, u64);
tuple!(t_u128, u128);
tuple!(t_i8, i8);
tuple!(t_i16, i16);
tuple!(t_i32, i32);

dims! { "p09", step; 0 0, 0 5, 5 0, 3 3, 4 6, 255 255, 32767 32767, 65535 65535 }
dims! { "p09", walk; 0 0, 3 3, 5 2 }
dims! { thorough "p09", walk; 7 7, 2 12 }
inst! {
    h_p09_tuple_u8 => t_u8;
    h_p09_tuple_u16 => t_u16;
    h_p09_tuple_u32 => t_u32;
    h_p09_tuple_u64 => t_u64;
    h_p09_tuple_u128 => t_u128;
    h_p09_tuple_i8 => t_i8;
    h_p09_tuple_i16 => t_i16;
    h_p09_tuple_i32 => t_i32;
}
