//! All positions and all 64-bit indices (symbolic) of the grids with maxima (0,0) (0,5) (5,0)
//! (3,3) (4,6) (6,4) (31,0) (32,1) (254,255) (255,255) (256,255) (32767,32767) (65535,65535)
//! (65535,0) (0,65535); tuple positions (u8,u8) (u16,u16) (u32,u32) and (i8,i8) (i16,i16)
//! (i32,i32).
use crate::{u, v};
use sqrid::*;

fn index<const X: u16, const Y: u16>() {
    let p = u::pos::<X, Y>();
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let i = p.to_usize();
    check!(i == p.y() as usize * w + p.x() as usize);
    check!(i < w * h);
    check!(usize::from(p) == i && usize::from(&p) == i);
    check!(Pos::<X, Y>::tryfrom_usize(i) == Ok(p));
    check!(Pos::<X, Y>::try_from(i) == Ok(p));
    v::observe(i as u64);
    // distinct positions have distinct indices, in row-major order
    let q = u::pos::<X, Y>();
    check!((p == q) == (i == q.to_usize()));
    check!((i < q.to_usize()) == ((p.y(), p.x()) < (q.y(), q.x())));
}

fn back<const X: u16, const Y: u16>() {
    v::covers(2);
    let n = (X as usize + 1) * (Y as usize + 1);
    let i = v::any(64) as usize;
    let r = Pos::<X, Y>::tryfrom_usize(i);
    check!(r == Pos::<X, Y>::try_from(i));
    match r {
        Ok(p) => {
            v::cover(0);
            check!(i < n);
            check!(p.y() as usize * (X as usize + 1) + p.x() as usize == i);
            check!(p.x() <= X && p.y() <= Y);
        }
        Err(e) => {
            v::cover(1);
            check!(i >= n);
            check!(e == Error::OutOfBounds);
        }
    }
}

fn consts<const X: u16, const Y: u16>() {
    type T = (u16, u16);
    let (w, h) = (X as usize + 1, Y as usize + 1);
    check!(Pos::<X, Y>::width() == w && Pos::<X, Y>::height() == h);
    check!(Pos::<X, Y>::dimensions() == w * h);
    check!(<Pos<X, Y> as PosT>::WIDTH == w && <Pos<X, Y> as PosT>::HEIGHT == h);
    check!(Pos::<X, Y>::XMAX == X && Pos::<X, Y>::YMAX == Y);
    check!(Pos::<X, Y>::first().tuple() == (0, 0) && Pos::<X, Y>::FIRST.tuple() == (0, 0));
    check!(Pos::<X, Y>::last().tuple() == (X, Y) && Pos::<X, Y>::LAST.tuple() == (X, Y));
    check!(Pos::<X, Y>::TOP_LEFT.tuple() == (0, 0) && Pos::<X, Y>::TOP_RIGHT.tuple() == (X, 0));
    check!(Pos::<X, Y>::BOTTOM_LEFT.tuple() == (0, Y) && Pos::<X, Y>::BOTTOM_RIGHT.tuple() == (X, Y));
    let c = Pos::<X, Y>::CENTER.tuple();
    check!(c.0 == X / 2 && c.1 == Y / 2);
    check!(Pos::<X, Y>::default().tuple() == (0, 0));
    check!(Pos::<X, Y>::new_static::<0, 0>().tuple() == (0, 0));
}

macro_rules! inherent {
    ($name:ident, $x:literal, $y:literal) => {
        fn $name() {
            type P = Pos<$x, $y>;
            check!(P::WIDTH as usize == $x as usize + 1 && P::HEIGHT as usize == $y as usize + 1);
            check!(P::SIZE == ($x as usize + 1) * ($y as usize + 1));
        }
    };
}
inherent!(inh_a, 3, 3);
inherent!(inh_b, 4, 6);
inherent!(inh_c, 0, 255);
inherent!(inh_d, 65534, 65534);

macro_rules! tuple {
    ($name:ident, $t:ty, $bits:literal) => {
        fn $name() {
            let p = (v::any($bits) as $t, v::any($bits) as $t);
            let w = 1usize << $bits;
            check!(<($t, $t)>::width() == w && <($t, $t)>::height() == w);
            check!(<($t, $t) as PosT>::WIDTH == w && <($t, $t) as PosT>::HEIGHT == w);
            check!(<($t, $t)>::first() == (0, 0) && <($t, $t)>::last() == (<$t>::MAX, <$t>::MAX));
            let i = p.to_usize();
            check!(i == p.1 as usize * w + p.0 as usize);
            check!(<($t, $t)>::tryfrom_usize(i) == Ok(p));
            let j = v::any(64) as usize;
            match <($t, $t)>::tryfrom_usize(j) {
                Ok(q) => check!(q.1 as usize * w + q.0 as usize == j),
                Err(e) => check!(j >> $bits >= w && e == Error::OutOfBounds),
            }
        }
    };
}
tuple!(tup_u8, u8, 8);
tuple!(tup_u16, u16, 16);
fn tup_u32() {
    let p = (v::any(32) as u32, v::any(32) as u32);
    check!(<(u32, u32)>::width() == 1 << 32);
    let i = p.to_usize();
    check!(i == (p.1 as usize) << 32 | p.0 as usize);
    let j = v::any(64) as usize;
    check!(<(u32, u32)>::tryfrom_usize(j) == Ok((j as u32, (j >> 32) as u32)));
}

/// positions with non-negative coordinates only: known finding 1
macro_rules! signed {
    ($name:ident, $t:ty, $bits:literal) => {
        fn $name() {
            v::covers(1);
            let p = (v::any($bits) as $t, v::any($bits) as $t);
            if p.0 < 0 || p.1 < 0 {
                v::known(1);
                v::expect_panic(true);
            }
            let i = p.to_usize();
            v::expect_panic(false);
            if p.0 >= 0 && p.1 >= 0 {
                v::cover(0);
                check!(<($t, $t)>::tryfrom_usize(i) == Ok(p));
                let q = (v::any($bits - 1) as $t, v::any($bits - 1) as $t);
                check!((p == q) == (i == q.to_usize()));
                check!((i < q.to_usize()) == ((p.1, p.0) < (q.1, q.0)));
            }
        }
    };
}
signed!(tup_i8, i8, 8);
signed!(tup_i16, i16, 16);
signed!(tup_i32, i32, 32);

dims! { "p02", index; 0 0, 0 5, 5 0, 3 3, 4 6, 6 4, 31 0, 32 1, 254 255, 255 255, 256 255,
    32767 32767, 65535 65535, 65535 0, 0 65535 }
dims! { "p02", back; 0 0, 0 5, 5 0, 3 3, 4 6, 6 4, 31 0, 32 1, 254 255, 255 255, 256 255,
    32767 32767, 65535 65535, 65535 0, 0 65535 }
dims! { "p02", consts; 0 0, 0 5, 5 0, 3 3, 4 6, 6 4, 31 0, 32 1, 254 255, 255 255, 256 255,
    32767 32767, 65535 65535, 65535 0, 0 65535 }
dims! { thorough "p02", index; 1 1, 2 9, 99 99, 1000 37, 65534 65535, 12345 54321 }
dims! { thorough "p02", back; 1 1, 2 9, 99 99, 1000 37, 65534 65535, 12345 54321 }
inst! {
    h_p02_inherent_a => inh_a;
    h_p02_inherent_b => inh_b;
    h_p02_inherent_c => inh_c;
    h_p02_inherent_d => inh_d;
    h_p02_tuple_u8 => tup_u8;
    h_p02_tuple_u16 => tup_u16;
    h_p02_tuple_u32 => tup_u32;
    h_p02_tuple_i8 => tup_i8;
    h_p02_tuple_i16 => tup_i16;
    h_p02_tuple_i32 => tup_i32;
}
