//! All positions and directions of the grids with maxima (0,0) (0,5) (5,0) (3,3) (4,6) (254,255)
//! (255,255) (256,255) (32767,32767) (65535,65535) (65535,0) (0,65535); all values of tuples of
//! the 12 integer types, mixed and bounded types.
use crate::{u, v};
use sqrid::*;

fn pos<const X: u16, const Y: u16>() {
    let p = u::pos::<X, Y>();
    let d = u::dir();
    let (dx, dy) = u::vec_of(d);
    let (x, y) = (p.x() as i64 + dx, p.y() as i64 + dy);
    let fits = x >= 0 && y >= 0 && x <= X as i64 && y <= Y as i64;
    let r = p + d;
    check!(r == &p + d && r == pos_dir_add(p, d));
    check!(pos_dir_add_ok(p, d) == r.clone().ok());
    match r {
        Ok(q) => {
            v::cover(0);
            check!(fits);
            check!(q.x() as i64 == x && q.y() as i64 == y);
            check!(q + (-d) == Ok(p));
        }
        Err(e) => {
            v::cover(1);
            check!(!fits);
            check!(e == Error::OutOfBounds);
        }
    }
    if X > 0 || Y > 0 {
        v::covers(2);
    }
}

macro_rules! tuple {
    ($name:ident, $t:ty, $u:ty) => {
        fn $name() {
            v::covers(2);
            let p = (v::any128() as $t, v::any128() as $u);
            let d = u::dir();
            let (dx, dy) = u::vec_of(d);
            let x = match dx {
                0 => Some(p.0),
                1 => if p.0 < <$t>::MAX { Some(p.0 + 1) } else { None },
                _ => if p.0 > <$t>::MIN { Some(p.0 - 1) } else { None },
            };
            let y = match dy {
                0 => Some(p.1),
                1 => if p.1 < <$u>::MAX { Some(p.1 + 1) } else { None },
                _ => if p.1 > <$u>::MIN { Some(p.1 - 1) } else { None },
            };
            let r = p + d;
            check!(r == &p + d);
            match (x, y) {
                (Some(x), Some(y)) => {
                    v::cover(0);
                    check!(r == Ok((x, y)));
                }
                _ => {
                    v::cover(1);
                    check!(r == Err(Error::OutOfBounds));
                }
            }
        }
    };
}
tuple!(t_u8, u8, u8);
tuple!(t_u16, u16, u16);
tuple!(t_u32, u32, u32);
tuple!(t_u64, u64, u64);
tuple!(t_u128, u128, u128);
tuple!(t_usize, usize, usize);
tuple!(t_i8, i8, i8);
tuple!(t_i16, i16, i16);
tuple!(t_i32, i32, i32);
tuple!(t_i64, i64, i64);
tuple!(t_i128, i128, i128);
tuple!(t_isize, isize, isize);
tuple!(t_mix_a, u8, i64);
tuple!(t_mix_b, i128, u16);

macro_rules! bounded {
    ($name:ident, $t:ident, $ti:ty, $l:literal, $h:literal, $u:ident, $ui:ty, $m:literal, $n:literal) => {
        fn $name() {
            v::covers(2);
            let (a, b) = (v::any128() as $ti, v::any128() as $ui);
            v::assume(a >= $l && a <= $h && b >= $m && b <= $n);
            let (Ok(pa), Ok(pb)) = ($t::<$l, $h>::new(a), $u::<$m, $n>::new(b)) else {
                check!(false);
                return;
            };
            let d = u::dir();
            let (dx, dy) = u::vec_of(d);
            let (x, y) = (a as i128 + dx as i128, b as i128 + dy as i128);
            let fits = x >= $l && x <= $h && y >= $m && y <= $n;
            match (pa, pb) + d {
                Ok(q) => {
                    v::cover(0);
                    check!(fits);
                    check!(q.0.into_inner() as i128 == x && q.1.into_inner() as i128 == y);
                }
                Err(e) => {
                    v::cover(1);
                    check!(!fits);
                    check!(e == Error::OutOfBounds);
                }
            }
        }
    };
}
bounded!(b_a, BoundedI8, i8, -5, 7, BoundedU16, u16, 3, 9);
bounded!(b_b, BoundedU8, u8, 2, 255, BoundedI64, i64, -9000000000, -3);
bounded!(b_c, BoundedI128, i128, -2, 2, BoundedU64, u64, 0, 18446744073709551615);
bounded!(b_d, BoundedIsize, isize, -1, 0, BoundedI16, i16, -32768, 32767);
bounded!(b_e, BoundedI32, i32, -2147483648, -2147483640, BoundedU32, u32, 4294967290, 4294967295);

dims! { "p08", pos; 0 0, 0 5, 5 0, 3 3, 4 6, 254 255, 255 255, 256 255, 32767 32767, 65535 65535, 65535 0, 0 65535 }
inst! {
    h_p08_tuple_u8 => t_u8;
    h_p08_tuple_u16 => t_u16;
    h_p08_tuple_u32 => t_u32;
    h_p08_tuple_u64 => t_u64;
    h_p08_tuple_u128 => t_u128;
    h_p08_tuple_usize => t_usize;
    h_p08_tuple_i8 => t_i8;
    h_p08_tuple_i16 => t_i16;
    h_p08_tuple_i32 => t_i32;
    h_p08_tuple_i64 => t_i64;
    h_p08_tuple_i128 => t_i128;
    h_p08_tuple_isize => t_isize;
    h_p08_tuple_mix_a => t_mix_a;
    h_p08_tuple_mix_b => t_mix_b;
    h_p08_bounded_a => b_a;
    h_p08_bounded_b => b_b;
    h_p08_bounded_c => b_c;
    h_p08_bounded_d => b_d;
    h_p08_bounded_e => b_e;
}
