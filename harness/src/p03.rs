//! All positions of the grids with maxima (0,0) (0,5) (5,0) (3,3) (4,6) (254,255) (255,255)
//! (256,255) (32767,32767) (65535,65535) (65535,0) (0,65535), and all values of the tuple
//! positions u8..u128 and i8..i32.
use crate::{u, v};
use sqrid::*;

fn pos<const X: u16, const Y: u16>() {
    let p = u::pos::<X, Y>();
    let (x, y) = p.tuple();
    let t = |o: Option<Pos<X, Y>>| o.map(|q| q.tuple());
    let next = if x < X { Some((x + 1, y)) } else if y < Y { Some((0, y + 1)) } else { None };
    check!(t(PosT::next(&p)) == next);
    let prev = if x > 0 { Some((x - 1, y)) } else if y > 0 { Some((X, y - 1)) } else { None };
    check!(t(p.prev()) == prev);
    let next_y = if y < Y { Some((x, y + 1)) } else if x < X { Some((x + 1, 0)) } else { None };
    check!(t(p.next_y()) == next_y);
    let prev_y = if y > 0 { Some((x, y - 1)) } else if x > 0 { Some((x - 1, Y)) } else { None };
    check!(t(p.prev_y()) == prev_y);
    if let Some(q) = PosT::next(&p) {
        check!(q.prev() == Some(p) && q.to_usize() == p.to_usize() + 1);
        v::cover(0);
    } else {
        check!(p == Pos::<X, Y>::LAST);
        v::cover(1);
    }
    if let Some(q) = p.next_y() {
        check!(q.prev_y() == Some(p));
    } else {
        check!(p == Pos::<X, Y>::LAST);
    }
    if p.prev().is_none() {
        check!(p == Pos::<X, Y>::FIRST);
    }
    if p.prev_y().is_none() {
        check!(p == Pos::<X, Y>::FIRST);
    }
    v::covers(if X == 0 && Y == 0 { 0 } else { 2 });
}

macro_rules! tuple {
    ($name:ident, $t:ty) => {
        fn $name() {
            v::covers(2);
            let p = (v::any128() as $t, v::any128() as $t);
            let (x, y) = p;
            let (lo, hi) = (<$t>::MIN, <$t>::MAX);
            let next = if x < hi { Some((x + 1, y)) } else if y < hi { Some((lo, y + 1)) } else { None };
            check!(PosT::next(&p) == next);
            let prev = if x > lo { Some((x - 1, y)) } else if y > lo { Some((hi, y - 1)) } else { None };
            check!(p.prev() == prev);
            let next_y = if y < hi { Some((x, y + 1)) } else if x < hi { Some((x + 1, lo)) } else { None };
            check!(p.next_y() == next_y);
            let prev_y = if y > lo { Some((x, y - 1)) } else if x > lo { Some((x - 1, hi)) } else { None };
            check!(p.prev_y() == prev_y);
            if next.is_none() {
                v::cover(0);
            }
            if prev.is_none() {
                v::cover(1);
            }
        }
    };
}
tuple!(t_u8, u8);
tuple!(t_u16, u16);
tuple!(t_u32, u32);
tuple!(t_u64, u64);
tuple!(t_u128, u128);
tuple!(t_i8, i8);
tuple!(t_i16, i16);
tuple!(t_i32, i32);

dims! { "p03", pos; 0 0, 0 5, 5 0, 3 3, 4 6, 254 255, 255 255, 256 255, 32767 32767, 65535 65535, 65535 0, 0 65535 }
inst! {
    h_p03_tuple_u8 => t_u8;
    h_p03_tuple_u16 => t_u16;
    h_p03_tuple_u32 => t_u32;
    h_p03_tuple_u64 => t_u64;
    h_p03_tuple_u128 => t_u128;
    h_p03_tuple_i8 => t_i8;
    h_p03_tuple_i16 => t_i16;
    h_p03_tuple_i32 => t_i32;
}
