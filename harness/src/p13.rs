//! Every content of grids with maxima (0,0) (0,1) (1,0) (0,5) (5,0) (1,1) (2,1) (1,2) (3,2) (2,3)
//! (4,4) (6,5) (9,4) (12,12) and of user-defined position types; rotations of squares with maxima 0
//! to 8 (thorough: to 19); any value in one of five cells
//! of 600x2, 2x600 and 70x70 (thorough: to 270400 cells); elements of 1, 4 and 16 bytes, also ones that cannot be copied.
use crate::u::{Own1, Own2};
use crate::{u, v};
use sqrid::*;

/// not Copy
#[derive(Debug, Default, PartialEq)]
struct Tok(u32);

fn content<P: PosT, const S: usize>() -> (Grid<Tok, P, S>, [u32; S]) {
    let mut g = Grid::<Tok, P, S>::default();
    let mut c = [0; S];
    for i in 0..S {
        c[i] = v::any(32) as u32;
        g.as_array_mut()[i] = Tok(c[i]);
    }
    (g, c)
}
/// the cell of index i moved to index to(x, y)
fn moved<P: PosT, const S: usize>(g: &Grid<Tok, P, S>, c: &[u32; S], w: usize, to: impl Fn(usize, usize) -> usize) {
    let mut ok = true;
    for i in 0..S {
        ok &= g.as_array()[to(i % w, i / w)].0 == c[i];
    }
    check!(ok);
}
fn flips_of<P: PosT, const S: usize>(w: usize, h: usize) {
    let (mut g, c) = content::<P, S>();
    match v::conc(v::below(4)) {
        0 => {
            g.flip_h();
            moved(&g, &c, w, |x, y| y * w + (w - 1 - x));
        }
        1 => {
            g.flip_v();
            moved(&g, &c, w, |x, y| (h - 1 - y) * w + x);
        }
        2 => {
            g.flip_h();
            g.flip_v();
            moved(&g, &c, w, |x, y| (h - 1 - y) * w + (w - 1 - x));
        }
        _ => {
            g.flip_h();
            g.flip_h();
            g.flip_v();
            g.flip_v();
            moved(&g, &c, w, |x, y| y * w + x);
        }
    }
}
fn flips<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    flips_of::<Pos<X, Y>, S>(X as usize + 1, Y as usize + 1)
}
/// as the positions' own flips
fn flip_pos<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    let mut g = Grid::<u8, Pos<X, Y>, S>::default();
    for x in g.iter_mut() {
        *x = v::any(8) as u8;
    }
    let old = g;
    let p = u::pos::<X, Y>();
    v::conc(p.x() as u64);
    v::conc(p.y() as u64);
    let mut h = g;
    h.flip_h();
    check!(h[p.flip_h()] == old[p]);
    g.flip_v();
    check!(g[p.flip_v()] == old[p]);
}
fn own1() {
    flips_of::<Own1, 12>(3, 4)
}
fn own2() {
    flips_of::<Own2, 15>(5, 3)
}
fn rotate<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    // X == Y
    let w = X as usize + 1;
    let (mut g, c) = content::<Pos<X, X>, S>();
    match v::conc(v::below(5)) {
        0 => {
            g.rotate_cw();
            moved(&g, &c, w, |x, y| x * w + (w - 1 - y));
        }
        1 => {
            g.rotate_cc();
            moved(&g, &c, w, |x, y| (w - 1 - x) * w + y);
        }
        2 => {
            g.rotate_cw();
            g.rotate_cw();
            moved(&g, &c, w, |x, y| (w - 1 - y) * w + (w - 1 - x));
        }
        3 => {
            g.rotate_cc();
            g.rotate_cw();
            moved(&g, &c, w, |x, y| y * w + x);
        }
        _ => {
            // the positions rotate the same way
            let p = u::pos::<X, X>();
            v::conc(p.x() as u64);
            v::conc(p.y() as u64);
            let i = p.y() as usize * w + p.x() as usize;
            g.rotate_cw();
            check!(g[p.rotate_cw()].0 == c[i]);
            g.rotate_cc();
            check!(g[p].0 == c[i]);
            g.rotate_cc();
            check!(g[p.rotate_cc()].0 == c[i]);
        }
    }
}
/// large ones, with any value in one of five cells and different ones in the others
fn far_of<const X: u16, const Y: u16, const S: usize>() -> (Box<Grid<u32, Pos<X, Y>, S>>, usize, u32) {
    let mut g = Box::new(Grid::<u32, Pos<X, Y>, S>::repeat(0));
    for (i, c) in g.iter_mut().enumerate() {
        *c = i as u32;
    }
    let at = [0, X as usize, S / 2 + 1, S - 1, S - 1 - X as usize][v::conc(v::below(5)) as usize];
    let c = v::any(32) as u32;
    g.as_array_mut()[at] = c;
    (g, at, c)
}
fn far_moved<const X: u16, const Y: u16, const S: usize>(g: &Grid<u32, Pos<X, Y>, S>, at: usize, c: u32, to: impl Fn(usize, usize) -> usize) {
    let w = X as usize + 1;
    let mut ok = true;
    for i in 0..S {
        ok &= g.as_array()[to(i % w, i / w)] == if i == at { c } else { i as u32 };
    }
    check!(ok);
}
fn far<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let (mut g, at, c) = far_of::<X, Y, S>();
    if v::conc(v::any(1)) == 0 {
        g.flip_h();
        far_moved(&g, at, c, |x, y| y * w + (w - 1 - x));
    } else {
        g.flip_v();
        far_moved(&g, at, c, |x, y| (h - 1 - y) * w + x);
    }
}
fn far_rotate<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    let w = X as usize + 1;
    let (mut g, at, c) = far_of::<X, X, S>();
    if v::conc(v::any(1)) == 0 {
        g.rotate_cw();
        far_moved(&g, at, c, |x, y| x * w + (w - 1 - y));
    } else {
        g.rotate_cc();
        far_moved(&g, at, c, |x, y| (w - 1 - x) * w + y);
    }
}
macro_rules! neg {
    ($name:ident, $t:ty) => {
        fn $name<const X: u16, const Y: u16, const S: usize, const W: usize>() {
            let mut g = Grid::<$t, Pos<X, Y>, S>::default();
            let mut c = [0 as $t; S];
            for i in 0..S {
                c[i] = v::any128() as $t;
                // its negation does not exist
                v::assume(c[i] != <$t>::MIN);
                g.as_array_mut()[i] = c[i];
            }
            let n = -g;
            let mut ok = true;
            for i in 0..S {
                ok &= n.as_array()[i] == 0 - c[i];
                ok &= g.as_array()[i] == c[i];
            }
            check!(ok);
        }
    };
}
neg!(neg_i8, i8);
neg!(neg_i32, i32);
neg!(neg_i128, i128);
gdims! { "h" "p13", flips; 0 0, 0 1, 1 0, 0 5, 5 0, 1 1, 2 1, 1 2, 3 2, 2 3, 4 4, 6 5, 9 4, 12 12, 63 1, 1 63, 95 0, 127 0 }
gdims! { "t" "p13", flips; 299 3, 3 299, 255 1, 31 2, 2 31, 20 19, 0 99, 99 0, 15 15 }
gdims! { "h" "p13", flip_pos; 0 0, 0 5, 5 0, 2 1, 3 3, 4 5 }
gdims! { "h" "p13", rotate; 0 0, 1 1, 2 2, 3 3, 4 4, 5 5, 6 6, 7 7, 8 8 }
gdims! { "t" "p13", rotate; 9 9, 10 10, 12 12, 15 15, 16 16, 19 19 }
gdims! { "h" "p13", far; 599 1, 1 599 }
gdims! { "t" "p13", far; 599 499, 65535 1, 1 65535 }
gdims! { "h" "p13", far_rotate; 69 69 }
gdims! { "t" "p13", far_rotate; 299 299, 519 519 }
gdims! { "h" "p13", neg_i8; 0 0, 2 3, 5 0 }
gdims! { "h" "p13", neg_i32; 0 5, 3 2, 4 4 }
gdims! { "h" "p13", neg_i128; 1 1 }
inst! {
    h_p13_own1 => own1;
    h_p13_own2 => own2;
}
