//! All positions, pairs and triples of positions of the grids with maxima (0,0) (0,5) (5,0)
//! (3,3) (4,6) (254,255) (255,255) (256,255) (32767,32767) (65535,65535) (65535,0); rotations
//! on the square ones, also (1,1) (2,2) (64,64); bounding boxes of 0 to 4 positions; tuple positions
//! of every integer type.
use crate::{u, v};
use sqrid::*;

fn flips<const X: u16, const Y: u16>() {
    let p = u::pos::<X, Y>();
    let (x, y) = p.tuple();
    check!(p.flip_h().tuple() == (X - x, y));
    check!(p.flip_v().tuple() == (x, Y - y));
    check!(p.flip_h().flip_h() == p && p.flip_v().flip_v() == p);
}
fn rot<const X: u16, const Y: u16>() {
    // X == Y
    let p = u::pos::<X, X>();
    let (x, y) = p.tuple();
    check!(p.rotate_cw().tuple() == (X - y, x));
    check!(p.rotate_cc().tuple() == (y, X - x));
    check!(p.rotate_cw().rotate_cc() == p && p.rotate_cc().rotate_cw() == p);
    check!(p.rotate_cw().rotate_cw() == p.flip_h().flip_v());
    check!(p.rotate_cw().rotate_cw().rotate_cw() == p.rotate_cc());
    check!(p.rotate_cw().rotate_cw().rotate_cw().rotate_cw() == p);
}
fn dist<const X: u16, const Y: u16>() {
    let (p, q) = (u::pos::<X, Y>(), u::pos::<X, Y>());
    let d = p.manhattan(&q);
    check!(d == u::absdiff(p.x(), q.x()) + u::absdiff(p.y(), q.y()));
    check!(d == q.manhattan(&p));
    check!((d == 0) == (p == q));
    v::observe(d as u64);
}
fn edges<const X: u16, const Y: u16>() {
    let p = u::pos::<X, Y>();
    let (ex, ey) = (p.x() == 0 || p.x() == X, p.y() == 0 || p.y() == Y);
    check!(p.is_corner() == (ex && ey));
    check!(p.is_side() == (ex || ey));
}
fn inside<const X: u16, const Y: u16>() {
    let (p, a, b) = (u::pos::<X, Y>(), u::pos::<X, Y>(), u::pos::<X, Y>());
    let want = a.x().min(b.x()) <= p.x()
        && p.x() <= a.x().max(b.x())
        && a.y().min(b.y()) <= p.y()
        && p.y() <= a.y().max(b.y());
    check!(p.inside(&a, &b) == want);
}
fn bbox<const X: u16, const Y: u16>() {
    v::covers(5);
    let ps = [u::pos::<X, Y>(), u::pos::<X, Y>(), u::pos::<X, Y>(), u::pos::<X, Y>()];
    let n = v::conc(v::below(5)) as usize;
    v::cover(n as u32);
    let r = Pos::<X, Y>::tlbr_of(ps[..n].iter().copied());
    check!(r == Pos::<X, Y>::tlbr_of(u::Loose(ps[..n].iter().copied())));
    if n == 0 {
        check!(r == Err(Error::Empty));
        return;
    }
    let Ok((tl, br)) = r else {
        check!(false);
        return;
    };
    let (mut x0, mut y0, mut x1, mut y1) = (u16::MAX, u16::MAX, 0, 0);
    for p in &ps[..n] {
        x0 = x0.min(p.x());
        y0 = y0.min(p.y());
        x1 = x1.max(p.x());
        y1 = y1.max(p.y());
    }
    check!(tl.tuple() == (x0, y0));
    check!(br.tuple() == (x1, y1));
}

macro_rules! tuple_any {
    ($name:ident, $t:ty) => {
        /// what does not compute with coordinates
        fn $name() {
            type P = ($t, $t);
            let any = || -> P { (v::any128() as $t, v::any128() as $t) };
            let (p, a, b) = (any(), any(), any());
            let (lo, hi) = (<$t>::MIN, <$t>::MAX);
            let (ex, ey) = (p.0 == lo || p.0 == hi, p.1 == lo || p.1 == hi);
            check!(p.is_corner() == (ex && ey));
            check!(p.is_side() == (ex || ey));
            let (x0, x1) = (a.0.min(b.0), a.0.max(b.0));
            let (y0, y1) = (a.1.min(b.1), a.1.max(b.1));
            check!(p.inside(&a, &b) == (x0 <= p.0 && p.0 <= x1 && y0 <= p.1 && p.1 <= y1));
            check!(P::tlbr_of([a, b].into_iter()) == Ok(((x0, y0), (x1, y1))));
            check!(P::tlbr_of([p, a, b].into_iter()) == Ok(((x0.min(p.0), y0.min(p.1)), (x1.max(p.0), y1.max(p.1)))));
            check!(P::tlbr_of(std::iter::empty()) == Err(Error::Empty));
        }
    };
}
tuple_any!(a_u8, u8);
tuple_any!(a_u16, u16);
tuple_any!(a_u32, u32);
tuple_any!(a_u64, u64);
tuple_any!(a_u128, u128);
tuple_any!(a_i8, i8);
tuple_any!(a_i16, i16);
tuple_any!(a_i32, i32);

macro_rules! tuple_unsigned {
    ($name:ident, $t:ty) => {
        fn $name() {
            type P = ($t, $t);
            let any = || -> P { (v::any128() as $t, v::any128() as $t) };
            let p = any();
            let m = <$t>::MAX;
            check!(p.flip_h() == (m - p.0, p.1) && p.flip_v() == (p.0, m - p.1));
            check!(p.rotate_cw() == (m - p.1, p.0) && p.rotate_cc() == (p.1, m - p.0));
            // every pair of positions is p and p displaced by some (dx, dy), in
            // one of the four orders
            let (dx, dy) = any();
            v::assume(dx <= m - p.0 && dy <= m - p.1);
            let (mut p, mut q) = (p, (p.0 + dx, p.1 + dy));
            if v::conc(v::any(1)) == 1 {
                std::mem::swap(&mut p.0, &mut q.0);
            }
            if v::conc(v::any(1)) == 1 {
                std::mem::swap(&mut p.1, &mut q.1);
            }
            // the distance may not fit in usize for the widest types: finding 1
            let want = (dx as u128).checked_add(dy as u128).filter(|d| *d <= usize::MAX as u128);
            match want {
                Some(d) => check!(p.manhattan(&q) as u128 == d),
                None => {
                    v::known(1);
                }
            }
        }
    };
}
tuple_unsigned!(u_u8, u8);
tuple_unsigned!(u_u16, u16);
tuple_unsigned!(u_u32, u32);
tuple_unsigned!(u_u64, u64);
tuple_unsigned!(u_u128, u128);

/// finding 2: distances beyond the signed type's maximum panic;
/// finding 3: flips mirror within the non-negative half and panic elsewhere
macro_rules! tuple_signed {
    ($name:ident, $t:ty) => {
        fn $name() {
            type P = ($t, $t);
            let any = || -> P { (v::any128() as $t, v::any128() as $t) };
            let (p, q) = (any(), any());
            match v::conc(v::below(3)) {
                0 => {
                    let dx = (p.0 as i128 - q.0 as i128).abs();
                    let dy = (p.1 as i128 - q.1 as i128).abs();
                    if dx > <$t>::MAX as i128 || dy > <$t>::MAX as i128 {
                        v::known(2);
                        v::expect_panic(true);
                    }
                    let d = p.manhattan(&q);
                    check!(d as i128 == dx + dy);
                }
                1 => {
                    v::known(3);
                    v::expect_panic(p.0 < 0);
                    let r = p.flip_h();
                    check!(r == (-1 - p.0, p.1) || r == (<$t>::MAX - p.0, p.1));
                }
                _ => {
                    v::expect_panic(p.1 < 0);
                    let r = p.flip_v();
                    check!(r == (p.0, -1 - p.1) || r == (p.0, <$t>::MAX - p.1));
                }
            }
        }
    };
}
tuple_signed!(s_i8, i8);
tuple_signed!(s_i16, i16);
tuple_signed!(s_i32, i32);

dims! { "p06", flips; 0 0, 0 5, 5 0, 3 3, 4 6, 254 255, 255 255, 256 255, 32767 32767, 65535 65535, 65535 0 }
dims! { "p06", rot; 0 0, 1 1, 2 2, 3 3, 64 64, 254 254, 255 255, 256 256, 32767 32767, 65535 65535 }
dims! { "p06", dist; 0 0, 0 5, 5 0, 3 3, 4 6, 254 255, 255 255, 256 255, 32767 32767, 65535 65535, 65535 0 }
dims! { "p06", edges; 0 0, 0 5, 5 0, 3 3, 4 6, 254 255, 256 255, 32767 32767, 65535 65535, 65535 0 }
dims! { "p06", inside; 0 0, 0 5, 3 3, 4 6, 254 255, 65535 65535 }
dims! { "p06", bbox; 0 0, 0 5, 3 3, 4 6, 254 255, 65535 65535 }
inst! {
    h_p06_any_u8 => a_u8;
    h_p06_any_u16 => a_u16;
    h_p06_any_u32 => a_u32;
    h_p06_any_u64 => a_u64;
    h_p06_any_u128 => a_u128;
    h_p06_any_i8 => a_i8;
    h_p06_any_i16 => a_i16;
    h_p06_any_i32 => a_i32;
    h_p06_unsigned_u8 => u_u8;
    h_p06_unsigned_u16 => u_u16;
    h_p06_unsigned_u32 => u_u32;
    h_p06_unsigned_u64 => u_u64;
    h_p06_unsigned_u128 => u_u128;
    h_p06_signed_i8 => s_i8;
    h_p06_signed_i16 => s_i16;
    h_p06_signed_i32 => s_i32;
}
