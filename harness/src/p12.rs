//! Grids of 1 to 42 cells and of 100 to 125 cells (maxima (0,0) (0,5) (5,0) (1,1) (2,3) (6,5) (10,9) (24,4) (0,99) (99,0), user-defined
//! position types with x and y of different types), elements of 1 to 16 bytes, every content; sequences of up to three
//! writes through every mutable access form to any positions, read back through every form at any position;
//! every form at 25 positions of grids of 65792 and 131070 cells.
use crate::{u, v};
use crate::u::{Own1, Own2};
use sqrid::*;

trait Elem: Copy + Default + PartialEq {
    fn any() -> Self;
}
impl Elem for u8 {
    #[inline(always)]
    fn any() -> u8 {
        v::any(8) as u8
    }
}
impl Elem for u32 {
    #[inline(always)]
    fn any() -> u32 {
        v::any(32) as u32
    }
}
impl Elem for u128 {
    #[inline(always)]
    fn any() -> u128 {
        v::any128()
    }
}
/// with padding between the fields
impl Elem for (u8, u32) {
    #[inline(always)]
    fn any() -> (u8, u32) {
        (v::any(8) as u8, v::any(32) as u32)
    }
}

/// a grid of arbitrary content and that content
fn content<P: PosT, T: Elem, const S: usize>() -> (Grid<T, P, S>, [T; S]) {
    let mut g = Grid::<T, P, S>::repeat(T::default());
    let mut c = [T::default(); S];
    for i in 0..S {
        c[i] = T::any();
        g.as_array_mut()[i] = c[i];
    }
    (g, c)
}

fn write<P, T: Elem, const S: usize, const N: usize>(any: impl Fn() -> (P, usize, usize), w: usize)
where
    P: PosT + Copy + PartialEq,
    P::Ytype: TryFrom<usize>,
{
    let (mut g, c) = content::<P, T, S>();
    let mut log: [(usize, T); N] = [(S, T::default()); N];
    for i in 0..N {
        let (p, x, y) = any();
        let val = T::any();
        log[i] = (y * w + x, val);
        let form = v::conc(v::below(6));
        v::cover(form as u32);
        match form {
            0 => g[p] = val,
            1 => g[&p] = val,
            2 => *g.get_mut(&p) = val,
            3 => g.line_mut(p.y())[x] = val,
            4 => g.as_mut()[y * w + x] = val,
            _ => g.extend([(p, val)]),
        }
    }
    v::covers(6);
    // what the last write to the position asked, everywhere
    let (q, qx, qy) = any();
    let at = qy * w + qx;
    let mut want = c[at];
    for (i, val) in log {
        if i == at {
            want = val;
        }
    }
    check!(*g.get(&q) == want);
    check!(g[q] == want && g[&q] == want);
    check!(g.line(q.y())[qx] == want);
    check!(g.line(q.y()).len() == w);
    check!(g.as_array()[at] == want && g.as_ref()[at] == want);
    check!(g.into_inner()[at] == want);
}
#[inline(always)]
fn at<const X: u16, const Y: u16>() -> (Pos<X, Y>, usize, usize) {
    let p = u::pos::<X, Y>();
    (p, p.x() as usize, p.y() as usize)
}
fn write1_u32<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    write::<Pos<X, Y>, u32, S, 1>(at::<X, Y>, X as usize + 1);
}
fn write1_u8<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    write::<Pos<X, Y>, u8, S, 1>(at::<X, Y>, X as usize + 1);
}
fn write1_u128<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    write::<Pos<X, Y>, u128, S, 1>(at::<X, Y>, X as usize + 1);
}
fn write1_pair<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    write::<Pos<X, Y>, (u8, u32), S, 1>(at::<X, Y>, X as usize + 1);
}
fn write2_u8<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    write::<Pos<X, Y>, u8, S, 2>(at::<X, Y>, X as usize + 1);
}
fn write3_u8<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    write::<Pos<X, Y>, u8, S, 3>(at::<X, Y>, X as usize + 1);
}

fn own1() {
    let any = || {
        let (x, y) = (v::below(3), v::below(4));
        (Own1(BoundedU8(x as u8), BoundedI32(y as i32)), x as usize, y as usize)
    };
    write::<Own1, u32, 12, 1>(any, 3)
}
fn own2() {
    let any = || {
        let (x, y) = (v::below(5), v::below(3));
        (Own2(BoundedI64(x as i64), BoundedU128(y as u128)), x as usize, y as usize)
    };
    write::<Own2, u32, 15, 1>(any, 5)
}

/// one write in a large uniform grid
fn sparse<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    let (a, b) = (v::any(16) as u16, v::any(16) as u16);
    let mut g = Grid::<u16, Pos<X, Y>, S>::repeat(a);
    let (p, q) = (u::pos::<X, Y>(), u::pos::<X, Y>());
    if X > 0 {
        v::conc(p.y() as u64);
    }
    g[p] = b;
    let want = if p.tuple() == q.tuple() { b } else { a };
    check!(g[q] == want);
    check!(g.line(BoundedU16(q.y()))[q.x() as usize] == want);
}

/// every form of access near the edges and in the middle of a very large grid
fn far<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    let some = |max: u16| [0, 1, max / 2, max - 1, max][v::conc(v::below(5)) as usize];
    let (x, y) = (some(X), some(Y));
    let Ok(p) = Pos::<X, Y>::new(x, y) else {
        check!(false);
        return;
    };
    let (x, y) = (x as usize, y as usize);
    let w = X as usize + 1;
    let at = y * w + x;
    let mut g = Grid::<u8, Pos<X, Y>, S>::repeat(7);
    let (a, b, c, d, e) = (v::any(8) as u8, v::any(8) as u8, v::any(8) as u8, v::any(8) as u8, v::any(8) as u8);
    g.as_array_mut()[at] = a;
    check!(g[p] == a && g[&p] == a && *g.get(&p) == a);
    check!(g.line(PosT::y(&p))[x] == a && g.line(PosT::y(&p)).len() == w);
    g[p] = b;
    check!(g.as_array()[at] == b);
    *g.get_mut(&p) = c;
    check!(g.as_ref()[at] == c);
    g.line_mut(PosT::y(&p))[x] = d;
    check!(g.as_array()[at] == d);
    g.extend([(p, e)]);
    check!(g[p] == e && g.as_ref()[at] == e);
    for i in [0, 1, w, at.wrapping_sub(1), at + 1, at ^ 1 << 16, at ^ 1 << 15, S - 1] {
        if i < S && i != at {
            check!(g.as_array()[i] == 7);
        }
    }
}

/// all reading forms, in order
fn read<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    let (mut g, c) = content::<Pos<X, Y>, u8, S>();
    let w = X as usize + 1;
    check!(Grid::<u8, Pos<X, Y>, S>::SIZE == S);
    let mut i = 0;
    for x in g.iter() {
        check!(*x == c[i]);
        i += 1;
    }
    check!(i == S);
    i = 0;
    for x in &g {
        check!(*x == c[i]);
        i += 1;
    }
    check!(i == S);
    i = 0;
    for x in g {
        check!(x == c[i]);
        i += 1;
    }
    check!(i == S);
    i = 0;
    for (p, x) in g.iter_pos() {
        check!(p.x() as usize == i % w && p.y() as usize == i / w);
        check!(*x == c[i]);
        i += 1;
    }
    check!(i == S);
    for y in 0..=Y {
        let Ok(b) = BoundedU16::<0, Y>::new(y) else {
            check!(false);
            return;
        };
        let l = g.line(b);
        check!(l.len() == w);
        for x in 0..w {
            check!(l[x] == c[y as usize * w + x]);
        }
    }
    // writing through the iterators
    i = 0;
    for x in g.iter_mut() {
        *x = x.wrapping_add(c[S - 1 - i]);
        i += 1;
    }
    i = 0;
    for x in &mut g {
        check!(*x == c[i].wrapping_add(c[S - 1 - i]));
        *x = i as u8;
        i += 1;
    }
    check!(i == S);
    i = 0;
    for x in g.as_ref() {
        check!(*x == i as u8);
        i += 1;
    }
    let r = v::any(8) as u8;
    let mut n = 0;
    for x in Grid::<u8, Pos<X, Y>, S>::repeat(r) {
        check!(x == r);
        n += 1;
    }
    for x in Grid::<u8, Pos<X, Y>, S>::default() {
        check!(x == 0);
        n += 1;
    }
    check!(n == 2 * S);
}
/// grids compare by content
fn compare<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    let (g, c) = content::<Pos<X, Y>, u8, S>();
    let (h, d) = content::<Pos<X, Y>, u8, S>();
    let mut same = true;
    for i in 0..S {
        same &= c[i] == d[i];
    }
    check!((g == h) == same);
    check!(g.clone() == g);
}

gdims! { "h" "p12", write1_u32; 0 0, 0 5, 5 0, 1 1, 2 3, 6 5 }
gdims! { "h" "p12", write1_u8; 0 0, 0 5, 5 0, 2 3, 6 5 }
gdims! { "h" "p12", write1_u128; 2 3 }
gdims! { "h" "p12", write1_pair; 2 3, 4 2 }
gdims! { "h" "p12", write2_u8; 0 5, 5 0, 2 3 }
gdims! { "t" "p12", write3_u8; 0 5, 5 0, 1 2, 2 1, 2 3 }
gdims! { "t" "p12", write2_u8; 6 5, 5 6, 31 0, 0 31 }
gdims! { "t" "p12", write1_u8; 15 15, 0 63, 63 0 }
gdims! { "h" "p12", sparse; 0 99, 99 0, 24 4, 10 9 }
gdims! { "t" "p12", sparse; 24 7, 15 15, 0 255, 256 0, 255 2 }
gdims! { "h" "p12", far; 255 256, 65534 1 }
gdims! { "t" "p12", far; 1 65534, 300 300, 511 511 }
gdims! { "h" "p12", read; 0 0, 0 5, 5 0, 1 1, 2 3, 3 2, 6 5 }
gdims! { "t" "p12", read; 15 15, 31 2, 0 63, 63 0 }
gdims! { "h" "p12", compare; 0 0, 0 5, 5 0, 2 3 }
inst! {
    h_p12_own1 => own1;
    h_p12_own2 => own2;
}
