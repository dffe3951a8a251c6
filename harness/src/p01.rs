//! Every 16-, 32-, 64- and 128-bit coordinate pair (all bits symbolic) against
//! grids with maxima (0,0) (0,5) (5,0) (3,3) (4,6) (254,255) (255,255) (256,255)
//! (32767,32767) (65535,65535) (65535,0) (0,65535) and, for positions taken from another
//! position type, from the u8..u128 and i8..i32 tuple types.
use crate::v;
use sqrid::*;

/// every way to build a position from two u16
fn u16s<const X: u16, const Y: u16>() {
    v::covers(3);
    let (x, y) = (v::any(16) as u16, v::any(16) as u16);
    let fits = x <= X && y <= Y;
    let rs = [
        Pos::<X, Y>::new(x, y),
        <Pos<X, Y> as PosT>::new(x, y),
        Pos::<X, Y>::try_from((x, y)),
        Pos::<X, Y>::try_from(&(x, y)),
        Pos::<X, Y>::tryfrom_pos((x, y)),
    ];
    for r in rs {
        match r {
            Ok(p) => {
                v::cover(0);
                check!(fits);
                check!(p.x() == x && p.y() == y);
                check!(p.tuple() == (x, y));
                check!(p.inner_tuple() == (x, y));
                check!(<(u16, u16)>::from(p) == (x, y));
                check!(<(u16, u16)>::from(&p) == (x, y));
                check!(<(i32, i32)>::from(p) == (x as i32, y as i32));
                check!(<(i32, i32)>::from(&p) == (x as i32, y as i32));
                let (bx, by) = PosT::tuple(&p);
                check!(bx.into_inner() == x && by.into_inner() == y);
                check!(PosT::x(&p) == bx && PosT::y(&p) == by);
                check!(p.into_tuple() == (bx, by));
                check!(Pos::<X, Y>::from((bx, by)) == p && Pos::<X, Y>::from(&(bx, by)) == p);
            }
            Err(e) => {
                check!(!fits);
                check!(e == Error::OutOfBounds);
            }
        }
    }
    if X < u16::MAX || Y < u16::MAX {
        if !fits {
            v::cover(1);
        }
    } else {
        v::cover(1);
    }
    v::expect_panic(!fits);
    let p = Pos::<X, Y>::new_unwrap(x, y);
    v::expect_panic(false);
    check!(fits);
    check!(p.tuple() == (x, y));
    v::cover(2);
}

fn i32s<const X: u16, const Y: u16>() {
    v::covers(2);
    let (x, y) = (v::any(32) as i32, v::any(32) as i32);
    let fits = x >= 0 && y >= 0 && x <= X as i32 && y <= Y as i32;
    for r in [
        Pos::<X, Y>::try_from((x, y)),
        Pos::<X, Y>::try_from(&(x, y)),
        <Pos<X, Y> as PosT>::new(x, y),
        Pos::<X, Y>::tryfrom_pos((x, y)),
    ] {
        match r {
            Ok(p) => {
                v::cover(0);
                check!(fits);
                check!(p.x() as i32 == x && p.y() as i32 == y);
            }
            Err(e) => {
                v::cover(1);
                check!(!fits);
                check!(e == Error::OutOfBounds);
            }
        }
    }
}

/// the generic constructor, any mix of integer types
macro_rules! generic_new {
    ($name:ident, $t:ty, $u:ty) => {
        fn $name<const X: u16, const Y: u16>() {
            v::covers(2);
            let x = v::any128() as $t;
            let y = v::any128() as $u;
            #[allow(unused_comparisons)]
            let fits = x >= 0 && y >= 0 && (x as u128) <= X as u128 && (y as u128) <= Y as u128;
            match <Pos<X, Y> as PosT>::new(x, y) {
                Ok(p) => {
                    v::cover(0);
                    check!(fits);
                    check!(p.x() as u128 == x as u128 && p.y() as u128 == y as u128);
                }
                Err(e) => {
                    v::cover(1);
                    check!(!fits);
                    check!(e == Error::OutOfBounds);
                }
            }
        }
    };
}
generic_new!(new_u8_i8, u8, i8);
generic_new!(new_i16_u32, i16, u32);
generic_new!(new_u64_i64, u64, i64);
generic_new!(new_u128_i128, u128, i128);
generic_new!(new_usize_isize, usize, isize);
generic_new!(new_i64_i16, i64, i16);

/// a position taken over from another position type
macro_rules! from_tuple_pos {
    ($name:ident, $t:ty) => {
        fn $name<const X: u16, const Y: u16>() {
            v::covers(2);
            let t = (v::any128() as $t, v::any128() as $t);
            #[allow(unused_comparisons)]
            let fits = t.0 >= 0 && t.1 >= 0 && (t.0 as u128) <= X as u128 && (t.1 as u128) <= Y as u128;
            match Pos::<X, Y>::tryfrom_pos(t) {
                Ok(p) => {
                    v::cover(0);
                    check!(fits);
                    check!(p.x() as u128 == t.0 as u128 && p.y() as u128 == t.1 as u128);
                }
                Err(e) => {
                    v::cover(1);
                    check!(!fits);
                    check!(e == Error::OutOfBounds);
                }
            }
        }
    };
}
from_tuple_pos!(pos_from_u8, u8);
from_tuple_pos!(pos_from_u16, u16);
from_tuple_pos!(pos_from_u32, u32);
from_tuple_pos!(pos_from_u64, u64);
from_tuple_pos!(pos_from_u128, u128);
from_tuple_pos!(pos_from_i8, i8);
from_tuple_pos!(pos_from_i16, i16);
from_tuple_pos!(pos_from_i32, i32);

/// tuples as positions: a value is accepted exactly when it fits the type
macro_rules! tuple_new {
    ($name:ident, $t:ty, $from:ty) => {
        fn $name() {
            v::covers(2);
            let x = v::any128() as $from;
            let y = v::any128() as $from;
            #[allow(unused_comparisons)]
            let ok = |a: $from| {
                let w = a as $t;
                (w as $from == a) && ((w < 0) == (a < 0))
            };
            let fits = ok(x) && ok(y);
            match <($t, $t) as PosT>::new(x, y) {
                Ok(p) => {
                    v::cover(0);
                    check!(fits);
                    check!(p == (x as $t, y as $t));
                    check!(PosT::x(&p) == x as $t && PosT::y(&p) == y as $t && PosT::tuple(&p) == p);
                    check!(p.into_tuple() == p && p.inner_tuple() == p);
                }
                Err(e) => {
                    v::cover(1);
                    check!(!fits);
                    check!(e == Error::OutOfBounds);
                }
            }
        }
    };
}
tuple_new!(t_u8_i16, u8, i16);
tuple_new!(t_u16_i32, u16, i32);
tuple_new!(t_u32_i64, u32, i64);
tuple_new!(t_u64_u128, u64, u128);
tuple_new!(t_u128_i128, u128, i128);
tuple_new!(t_i8_u8, i8, u8);
tuple_new!(t_i16_u64, i16, u64);
tuple_new!(t_i32_u32, i32, u32);

/// from any tuple position to any other
macro_rules! tuple_to_tuple {
    ($name:ident $t:ty: $($u:ty)*) => {
        fn $name() {
            let t = (v::any128() as $t, v::any128() as $t);
            $(match <($u, $u)>::tryfrom_pos(t) {
                Ok(q) => check!(<$t>::try_from(q.0) == Ok(t.0) && <$t>::try_from(q.1) == Ok(t.1) && (q.0 as i128 == t.0 as i128) && (q.1 as i128 == t.1 as i128)),
                Err(e) => {
                    check!(<$u>::try_from(t.0).is_err() | <$u>::try_from(t.1).is_err());
                    check!(e == Error::OutOfBounds);
                }
            })*
        }
    };
}
tuple_to_tuple!(tt_u8 u8: u8 u16 u32 u64 u128 i8 i16 i32);
tuple_to_tuple!(tt_u16 u16: u8 u16 u32 u64 u128 i8 i16 i32);
tuple_to_tuple!(tt_u32 u32: u8 u16 u32 u64 u128 i8 i16 i32);
tuple_to_tuple!(tt_u64 u64: u8 u16 u32 u64 u128 i8 i16 i32);
tuple_to_tuple!(tt_u128 u128: u8 u16 u32 u64 u128 i8 i16 i32);
tuple_to_tuple!(tt_i8 i8: u8 u16 u32 u64 u128 i8 i16 i32);
tuple_to_tuple!(tt_i16 i16: u8 u16 u32 u64 u128 i8 i16 i32);
tuple_to_tuple!(tt_i32 i32: u8 u16 u32 u64 u128 i8 i16 i32);

/// positions between grids of different size
fn between<const X: u16, const Y: u16, const X2: u16, const Y2: u16>() {
    let Ok(p) = Pos::<X, Y>::new(v::any(16) as u16, v::any(16) as u16) else { return };
    let fits = p.x() <= X2 && p.y() <= Y2;
    match Pos::<X2, Y2>::tryfrom_pos(p) {
        Ok(q) => {
            v::cover(0);
            check!(fits);
            check!(q.tuple() == p.tuple());
        }
        Err(e) => {
            check!(!fits);
            check!(e == Error::OutOfBounds);
        }
    }
    match <(u8, u8)>::tryfrom_pos(p) {
        Ok(q) => check!((q.0 as u16, q.1 as u16) == p.tuple()),
        Err(_) => check!(p.x() > 255 || p.y() > 255),
    }
    match <(i8, i8)>::tryfrom_pos(p) {
        Ok(q) => check!((q.0 as u16, q.1 as u16) == p.tuple() && q.0 >= 0 && q.1 >= 0),
        Err(_) => check!(p.x() > 127 || p.y() > 127),
    }
    match <(u128, u128)>::tryfrom_pos(p) {
        Ok(q) => check!((q.0 as u16, q.1 as u16) == p.tuple() && q.0 <= 65535 && q.1 <= 65535),
        Err(_) => check!(false),
    }
    v::covers(1);
}

inst! {
    h_p01_u16_0_0 => u16s::<0, 0>;
    h_p01_u16_0_5 => u16s::<0, 5>;
    h_p01_u16_5_0 => u16s::<5, 0>;
    h_p01_u16_3_3 => u16s::<3, 3>;
    h_p01_u16_4_6 => u16s::<4, 6>;
    h_p01_u16_254_255 => u16s::<254, 255>;
    h_p01_u16_256_255 => u16s::<256, 255>;
    h_p01_u16_7fff => u16s::<0x7fff, 0x7fff>;
    h_p01_u16_ffff_0 => u16s::<0xffff, 0>;
    h_p01_u16_0_ffff => u16s::<0, 0xffff>;
    h_p01_u16_ffff => u16s::<0xffff, 0xffff>;
    h_p01_i32_0_0 => i32s::<0, 0>;
    h_p01_i32_0_5 => i32s::<0, 5>;
    h_p01_i32_4_6 => i32s::<4, 6>;
    h_p01_i32_255_255 => i32s::<255, 255>;
    h_p01_i32_7fff => i32s::<0x7fff, 0x7fff>;
    h_p01_i32_ffff => i32s::<0xffff, 0xffff>;
    h_p01_new_a => new_u8_i8::<6, 4>;
    h_p01_new_b => new_i16_u32::<6, 4>;
    h_p01_new_c => new_u64_i64::<6, 4>;
    h_p01_new_d => new_u128_i128::<6, 4>;
    h_p01_new_e => new_usize_isize::<6, 4>;
    h_p01_new_f => new_i64_i16::<6, 4>;
    h_p01_new_b2 => new_i16_u32::<0xffff, 0x7fff>;
    h_p01_new_d2 => new_u128_i128::<0xffff, 0xffff>;
    h_p01_new_e2 => new_usize_isize::<255, 0xffff>;
    h_p01_pos_a => pos_from_u8::<4, 6>;
    h_p01_pos_b => pos_from_u16::<4, 6>;
    h_p01_pos_c => pos_from_u32::<4, 6>;
    h_p01_pos_d => pos_from_u64::<4, 6>;
    h_p01_pos_e => pos_from_u128::<0xffff, 6>;
    h_p01_pos_f => pos_from_i8::<4, 6>;
    h_p01_pos_g => pos_from_i16::<255, 0xffff>;
    h_p01_pos_h => pos_from_i32::<0xffff, 0xffff>;
    h_p01_tup_a => t_u8_i16;
    h_p01_tup_b => t_u16_i32;
    h_p01_tup_c => t_u32_i64;
    h_p01_tup_d => t_u64_u128;
    h_p01_tup_e => t_u128_i128;
    h_p01_tup_f => t_i8_u8;
    h_p01_tup_g => t_i16_u64;
    h_p01_tup_h => t_i32_u32;
    h_p01_tt_u8 => tt_u8;
    h_p01_tt_u16 => tt_u16;
    h_p01_tt_u32 => tt_u32;
    h_p01_tt_u64 => tt_u64;
    h_p01_tt_u128 => tt_u128;
    h_p01_tt_i8 => tt_i8;
    h_p01_tt_i16 => tt_i16;
    h_p01_tt_i32 => tt_i32;
    h_p01_btw_a => between::<4, 6, 6, 4>;
    h_p01_btw_b => between::<300, 300, 5, 200>;
    h_p01_btw_c => between::<3, 3, 0xffff, 0xffff>;
}
