//! Every content of gridbools of 1 to 169 cells with maxima (0,0) (0,5) (5,0) (2,3) (3,2) (30,0) (31,0) (32,0)
//! (0,31) (0,32) (6,8) (8,6) (7,7) (4,12) (31,2) (12,12), of the user-defined position types, of
//! multiples of 32 cells with the spare word, any content of one word in grids of 64 to 1200 cells (of one of four words in 600x2, 2x600
//! and 70x70, with fixed or no bits in the others); flips twice and combined; rotations of squares with maxima 0 to
//! 8 (thorough: to 15), twice, forth and back.
use crate::u::{Own1, Own2};
use crate::{u, v};
use sqrid::*;

/// every content, and the same as an array of words in row-major order
fn content<P: PosT, const W: usize>() -> Gridbool<P, W> {
    let mut g = Gridbool::<P, W>::repeat(true);
    for w in g.as_inner_mut() {
        *w &= v::any(32) as u32;
    }
    g
}
/// what was at (x, y) is now at to(x, y)
fn moved<P: PosT, const W: usize>(g: &Gridbool<P, W>, old: &Gridbool<P, W>, to: impl Fn(usize, usize) -> (usize, usize)) {
    let (w, h) = (P::WIDTH, P::HEIGHT);
    let mut at = P::iter();
    let mut ok = true;
    for y in 0..h {
        for x in 0..w {
            let Some(p) = at.next() else {
                check!(false);
                return;
            };
            let (tx, ty) = to(x, y);
            let Ok(q) = P::tryfrom_usize(ty * w + tx) else {
                check!(false);
                return;
            };
            ok &= g.get(&q) == old.get(&p);
        }
    }
    check!(ok);
    // nothing but its cells is in it
    let mut r = Gridbool::<P, W>::repeat(false);
    for p in P::iter() {
        r.set(&p, g.get(&p));
    }
    let mut same = true;
    for (a, b) in r.as_inner().iter().zip(g.as_inner()) {
        for i in 0..32 {
            same &= a >> i & 1 == b >> i & 1;
        }
    }
    check!(same);
}
/// any bits in one of the words, fixed ones in the others
fn one_word<P: PosT, const W: usize>() -> Gridbool<P, W> {
    let mut g = Gridbool::<P, W>::repeat(true);
    let any = v::conc(v::below(W as u64));
    let mut bits = 0x9e37_79b9u32;
    for (i, w) in g.as_inner_mut().iter_mut().enumerate() {
        bits ^= bits << 13;
        bits ^= bits >> 17;
        bits ^= bits << 5;
        *w &= if i as u64 == any { v::any(32) as u32 } else { bits };
    }
    g
}
/// any bits in one of a few words, and none or fixed ones in the others
fn far_word<P: PosT, const W: usize>() -> Gridbool<P, W> {
    let mut g = Gridbool::<P, W>::repeat(true);
    let any = [0, W / 3, W / 2, W - 1][v::conc(v::below(4)) as usize];
    let (mut bits, sparse) = (0x9e37_79b9u32, v::conc(v::any(1)) == 1);
    for (i, w) in g.as_inner_mut().iter_mut().enumerate() {
        bits ^= bits << 13;
        bits ^= bits >> 17;
        bits ^= bits << 5;
        *w &= if i == any {
            v::any(32) as u32
        } else if sparse {
            0
        } else {
            bits
        };
    }
    g
}
fn far<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    flip_this::<Pos<X, Y>, W>(far_word())
}
fn far_rotate<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    rotate_this::<X, W>(far_word())
}
fn flips_of<P: PosT, const W: usize>() {
    flip_this::<P, W>(content())
}
fn wide<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    flip_this::<Pos<X, Y>, W>(one_word())
}
fn wide_rotate<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    rotate_this::<X, W>(one_word())
}
fn flip_this<P: PosT, const W: usize>(old: Gridbool<P, W>) {
    v::merge(true);
    v::covers(5);
    let (w, h) = (P::WIDTH, P::HEIGHT);
    let mut g = old;
    let what = v::conc(v::below(5));
    v::cover(what as u32);
    match what {
        0 => {
            g.flip_h();
            moved(&g, &old, |x, y| (w - 1 - x, y));
        }
        1 => {
            g.flip_v();
            moved(&g, &old, |x, y| (x, h - 1 - y));
        }
        2 => {
            g.flip_h();
            g.flip_v();
            moved(&g, &old, |x, y| (w - 1 - x, h - 1 - y));
        }
        3 => {
            g.flip_v();
            g.flip_v();
            moved(&g, &old, |x, y| (x, y));
        }
        _ => {
            g.flip_h();
            g.flip_h();
            moved(&g, &old, |x, y| (x, y));
        }
    }
}
fn flips<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    flips_of::<Pos<X, Y>, W>()
}
fn own1() {
    flips_of::<Own1, 1>()
}
fn own2() {
    flips_of::<Own2, 1>()
}
/// as the positions themselves
fn flip_pos<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    v::merge(true);
    let old = content::<Pos<X, Y>, W>();
    let p = u::pos::<X, Y>();
    let mut g = old;
    g.flip_h();
    check!(g.get(&p.flip_h()) == old.get(&p));
    let mut g = old;
    g.flip_v();
    check!(g.get(&p.flip_v()) == old.get(&p));
}
fn rotate_of<const X: u16, const W: usize>() {
    rotate_this::<X, W>(content())
}
fn rotate_this<const X: u16, const W: usize>(old: Gridbool<Pos<X, X>, W>) {
    v::merge(true);
    v::covers(6);
    let n = X as usize;
    let mut g = old;
    let what = v::conc(v::below(6));
    v::cover(what as u32);
    match what {
        0 => {
            g.rotate_cw();
            moved(&g, &old, |x, y| (n - y, x));
        }
        1 => {
            g.rotate_cc();
            moved(&g, &old, |x, y| (y, n - x));
        }
        2 => {
            g.rotate_cw();
            g.rotate_cw();
            moved(&g, &old, |x, y| (n - x, n - y));
        }
        3 => {
            g.rotate_cc();
            g.rotate_cc();
            moved(&g, &old, |x, y| (n - x, n - y));
        }
        4 => {
            g.rotate_cw();
            g.rotate_cc();
            moved(&g, &old, |x, y| (x, y));
        }
        _ => {
            let p = u::pos::<X, X>();
            g.rotate_cw();
            check!(g.get(&p.rotate_cw()) == old.get(&p));
            let mut g = old;
            g.rotate_cc();
            check!(g.get(&p.rotate_cc()) == old.get(&p));
        }
    }
}
fn rotate<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    rotate_of::<X, W>()
}

gdims! { "h" "p16", flips; 0 0, 0 5, 5 0, 2 3, 3 2, 30 0, 31 0, 32 0, 0 31, 0 32, 6 8, 8 6, 7 7, 4 12, 31 2, 12 12 }
gdims! { "t" "p16", flips; 63 3, 3 63, 20 19, 0 199, 99 0, 15 15 }
gdims! { "h" "p16", wide; 63 0, 63 1, 64 2, 95 1, 127 0, 0 95, 2 63, 255 0, 256 1, 299 3, 3 299 }
gdims! { "h" "p16", wide_rotate; 15 15, 19 19, 31 31 }
gdims! { "h" "p16", far; 599 1, 1 599 }
gdims! { "t" "p16", far; 1199 9, 9 1199 }
gdims! { "h" "p16", far_rotate; 69 69 }
gdims! { "t" "p16", far_rotate; 255 255, 299 299 }
gdims! { "h" "p16", flip_pos; 0 5, 5 0, 2 3, 6 8, 31 2 }
gdims! { "h" "p16", rotate; 0 0, 1 1, 2 2, 3 3, 4 4, 5 5, 6 6, 7 7, 8 8 }
gdims! { "t" "p16", rotate; 9 9, 10 10, 11 11, 12 12, 13 13, 14 14, 15 15 }
inst! {
    h_p16_own1 => own1;
    h_p16_own2 => own2;
    h_p16_spare_31x0 => flips_of::<Pos<31, 0>, 2>;
    h_p16_spare_7x7 => flips_of::<Pos<7, 7>, 3>;
    h_p16_spare_rotate_7x7 => rotate_of::<7, 3>;
}
