//! Grid, (HashMap, item) and (BTreeMap, item) as maps, Gridbool, HashSet and BTreeSet as sets. Every sequence of
//! three operations at any positions of grids of up to 6 cells (maxima (0,0) (5,0) (0,5) (2,1)), of a user-defined
//! position type of 12 cells and of tuples around the corners of their range; of three (thorough: four) at positions that
//! stay symbolic for the grid and tree kinds in grids of up to 64 (thorough: 256) cells, read back at any position; every
//! cell, or all but one, half or 12, of grids of 16 and 40 (thorough: 100) cells set in orders of the
//! form a + i*b modulo the size, then overwritten or removed in another such order; every value of items of
//! type u32, Option<Dir> and of one that cannot be copied. Hash tables run with one fixed pair of
//! keys in place of std's random ones. Two writes among three cells far apart in grids of 900 and 65792 cells (thorough: 131072);
//! all of 323 (thorough: 1280) cells in a hash or tree kind, one of them changed.
use crate::u::Own1;
use crate::{u, v};
use sqrid::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;

trait Item: Copy + PartialEq {
    fn any() -> Self;
}
impl Item for u32 {
    fn any() -> u32 {
        v::any(32) as u32
    }
}
impl Item for Option<Dir> {
    fn any() -> Option<Dir> {
        use Dir::*;
        [None, Some(N), Some(NE), Some(E), Some(SE), Some(S), Some(SW), Some(W), Some(NW)][v::below(9) as usize]
    }
}
/// any position, one path each
fn at<P: PosT>(n: usize) -> (usize, P) {
    let i = v::conc(v::below(n as u64)) as usize;
    match P::tryfrom_usize(i) {
        Ok(p) => (i, p),
        Err(_) => {
            check!(false);
            panic!()
        }
    }
}
fn nth<P: PosT>(i: usize) -> P {
    match P::tryfrom_usize(i) {
        Ok(p) => p,
        Err(_) => {
            check!(false);
            panic!()
        }
    }
}
/// N writes anywhere
fn map_ops<I: Item, P: PosT, M: MapPos<I, P, W, S>, const W: usize, const S: usize, const N: usize>() {
    let init = I::any();
    let mut want = [init; S];
    let mut m = M::new(init);
    for _ in 0..N {
        let (i, p) = at::<P>(S);
        let val = I::any();
        want[i] = val;
        m.set(p, val);
    }
    let mut ok = true;
    for i in 0..S {
        ok &= *m.get(&nth(i)) == want[i];
    }
    check!(ok);
}
/// all cells in some order, all again in another
fn map_fill<I: Item, P: PosT, M: MapPos<I, P, W, S>, const W: usize, const S: usize>() {
    let init = I::any();
    let mut want = [init; S];
    let mut m = M::new(init);
    let n = v::conc(v::below(4)) as usize;
    for round in 0..2 {
        let (a, b) = order(S);
        for k in 0..[S, S - 1, S / 2, 12][n].min(S) {
            let i = (a + k * b) % S;
            let val = I::any();
            want[i] = val;
            m.set(nth(i), val);
        }
        let mut ok = true;
        for i in 0..S {
            ok &= *m.get(&nth(i)) == want[i];
        }
        check!(ok);
    }
}
fn order(s: usize) -> (usize, usize) {
    // strides that reach every cell of a grid of 16, 27, 33 or 40 cells
    let a = v::conc(v::below(3)) as usize;
    let b = v::conc(v::below(3)) as usize;
    ([0, s / 2, s - 1][a], [1, s - 1, 7][b])
}
fn set_ops<P: PosT, M: SetPos<P, W, S>, const W: usize, const S: usize, const N: usize>(mut m: M) {
    v::covers(4);
    let mut want = [false; S];
    for _ in 0..N {
        let (i, p) = at::<P>(S);
        let op = v::conc(v::below(4));
        v::cover(op as u32);
        match op {
            0 => m.insert(p),
            1 => m.remove(&p),
            2 => m.set(p, true),
            _ => m.set(p, false),
        }
        want[i] = op % 2 == 0;
    }
    let mut ok = true;
    for i in 0..S {
        ok &= m.contains(&nth(i)) == want[i];
    }
    check!(ok);
}
fn set_fill<P: PosT, M: SetPos<P, W, S>, const W: usize, const S: usize>(mut m: M) {
    let mut want = [false; S];
    for round in 0..3 {
        let n = v::conc(v::below(3)) as usize;
        let (a, b) = if round == 1 { order(S) } else { (0, 7) };
        for k in 0..[S, S - 1, S / 2][n] {
            let i = (a + k * b) % S;
            want[i] = round % 2 == 0;
            m.set(nth(i), round % 2 == 0);
        }
        let mut ok = true;
        for i in 0..S {
            ok &= m.contains(&nth(i)) == want[i];
        }
        check!(ok);
    }
}

fn grid3<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    map_ops::<u32, Pos<X, Y>, Grid<u32, Pos<X, Y>, S>, W, S, 3>()
}
fn hash3<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    map_ops::<u32, Pos<X, Y>, (HashMap<Pos<X, Y>, u32>, u32), W, S, 3>()
}
fn tree3<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    map_ops::<u32, Pos<X, Y>, (BTreeMap<Pos<X, Y>, u32>, u32), W, S, 3>()
}
fn sets3<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    match v::conc(v::below(3)) {
        0 => set_ops::<Pos<X, Y>, Gridbool<Pos<X, Y>, W>, W, S, 3>(Default::default()),
        1 => set_ops::<Pos<X, Y>, HashSet<Pos<X, Y>>, W, S, 3>(Default::default()),
        _ => set_ops::<Pos<X, Y>, BTreeSet<Pos<X, Y>>, W, S, 3>(Default::default()),
    }
}
fn grid_fill<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    map_fill::<Option<Dir>, Pos<X, Y>, Grid<Option<Dir>, Pos<X, Y>, S>, W, S>()
}
fn hash_fill<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    map_fill::<Option<Dir>, Pos<X, Y>, (HashMap<Pos<X, Y>, Option<Dir>>, Option<Dir>), W, S>()
}
fn tree_fill<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    map_fill::<Option<Dir>, Pos<X, Y>, (BTreeMap<Pos<X, Y>, Option<Dir>>, Option<Dir>), W, S>()
}
fn sets_fill<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    match v::conc(v::below(3)) {
        0 => set_fill::<Pos<X, Y>, Gridbool<Pos<X, Y>, W>, W, S>(Default::default()),
        1 => set_fill::<Pos<X, Y>, HashSet<Pos<X, Y>>, W, S>(Default::default()),
        _ => set_fill::<Pos<X, Y>, BTreeSet<Pos<X, Y>>, W, S>(Default::default()),
    }
}
/// writes at positions that stay symbolic
fn sym_map<P: PosT + Copy + PartialEq, M: MapPos<u32, P, W, S>, const W: usize, const S: usize, const N: usize>(any: impl Fn() -> P) {
    let mut want = v::any(32) as u32;
    let mut m = M::new(want);
    let q = any();
    for _ in 0..N {
        let p = any();
        let val = v::any(32) as u32;
        m.set(p, val);
        if p == q {
            want = val;
        }
    }
    check!(*m.get(&q) == want);
}
fn sym_set<P: PosT + Copy + PartialEq, M: SetPos<P, W, S>, const W: usize, const S: usize, const N: usize>(mut m: M, any: impl Fn() -> P) {
    let mut want = false;
    let q = any();
    for _ in 0..N {
        let p = any();
        let op = v::conc(v::below(4));
        match op {
            0 => m.insert(p),
            1 => m.remove(&p),
            2 => m.set(p, true),
            _ => m.set(p, false),
        }
        if p == q {
            want = op % 2 == 0;
        }
    }
    check!(m.contains(&q) == want);
}
fn sym<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    sym_of::<Pos<X, Y>, S, W, 3>(u::pos)
}
fn sym4<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    sym_of::<Pos<X, Y>, S, W, 4>(u::pos)
}
fn sym_of<P: PosT + Copy + Ord, const S: usize, const W: usize, const N: usize>(any: impl Fn() -> P) {
    match v::conc(v::below(4)) {
        0 => sym_map::<P, Grid<u32, P, S>, W, S, N>(any),
        1 => sym_map::<P, (BTreeMap<P, u32>, u32), W, S, N>(any),
        2 => sym_set::<P, Gridbool<P, W>, W, S, N>(Default::default(), any),
        _ => sym_set::<P, BTreeSet<P>, W, S, N>(Default::default(), any),
    }
}
/// cells far apart in large grids
fn wide<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    let any = || nth::<Pos<X, Y>>([1, S - 2, 255 + S / 65537 * 65282][v::conc(v::below(3)) as usize]);
    sym_of::<Pos<X, Y>, S, W, 2>(any)
}
/// all cells, then one of them again
fn many<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    type H<const X: u16, const Y: u16> = (HashMap<Pos<X, Y>, u32>, u32);
    type T<const X: u16, const Y: u16> = (BTreeMap<Pos<X, Y>, u32>, u32);
    match v::conc(v::below(4)) {
        0 => many_map::<Pos<X, Y>, H<X, Y>, W, S>(),
        1 => many_map::<Pos<X, Y>, T<X, Y>, W, S>(),
        2 => many_set::<Pos<X, Y>, HashSet<Pos<X, Y>>, W, S>(Default::default()),
        _ => many_set::<Pos<X, Y>, BTreeSet<Pos<X, Y>>, W, S>(Default::default()),
    }
}
fn many_map<P: PosT, M: MapPos<u32, P, W, S>, const W: usize, const S: usize>() {
    let mut m = M::new(0);
    let a = 70_000;
    for i in 0..S {
        m.set(nth(i), a + i as u32);
    }
    let k = [0, S / 3, S - 1][v::conc(v::below(3)) as usize];
    let b = v::any(32) as u32;
    m.set(nth(k), b);
    let mut ok = true;
    for i in 0..S {
        ok &= *m.get(&nth(i)) == if i == k { b } else { a + i as u32 };
    }
    check!(ok);
}
fn many_set<P: PosT, M: SetPos<P, W, S>, const W: usize, const S: usize>(mut m: M) {
    let skip = [0, S / 3, S - 1][v::conc(v::below(3)) as usize];
    let add = v::conc(v::any(1)) == 1;
    for i in 0..S {
        if add {
            m.insert(nth(i));
        } else {
            m.set(nth(i), i != skip);
        }
    }
    if add {
        m.remove(&nth(skip));
    }
    let mut ok = true;
    for i in 0..S {
        ok &= m.contains(&nth(i)) == (i != skip);
    }
    check!(ok);
}
/// positions without a grid: sizes play no role for hash and tree maps
fn tuples<T: Copy + Ord + Hash + BoundedInt>(of: impl Fn(u64) -> T)
where
    (T, T): PosT,
{
    let any = || {
        let (a, b) = (v::conc(v::below(3)), v::conc(v::below(2)));
        (of(a), of(b + 1))
    };
    match v::conc(v::below(4)) {
        0 => sym_map::<(T, T), (HashMap<(T, T), u32>, u32), 0, 0, 2>(any),
        1 => sym_map::<(T, T), (BTreeMap<(T, T), u32>, u32), 0, 0, 2>(any),
        2 => sym_set::<(T, T), HashSet<(T, T)>, 0, 0, 2>(Default::default(), any),
        _ => sym_set::<(T, T), BTreeSet<(T, T)>, 0, 0, 2>(Default::default(), any),
    }
}
#[derive(Debug, PartialEq)]
struct Tok(u32);
fn tokens<M: MapPos<Tok, P, W, S>, P: PosT, const W: usize, const S: usize>() {
    let init = v::any(32) as u32;
    let mut m = M::new(Tok(init));
    let mut want = [init; S];
    for _ in 0..3 {
        let (i, p) = at::<P>(S);
        want[i] = v::any(32) as u32;
        m.set(p, Tok(want[i]));
    }
    let mut ok = true;
    for i in 0..S {
        ok &= m.get(&nth(i)).0 == want[i];
    }
    check!(ok);
}
fn own() {
    match v::conc(v::below(6)) {
        0 => map_ops::<u32, Own1, Grid<u32, Own1, 12>, 1, 12, 2>(),
        1 => map_ops::<u32, Own1, (HashMap<Own1, u32>, u32), 1, 12, 2>(),
        2 => map_ops::<u32, Own1, (BTreeMap<Own1, u32>, u32), 1, 12, 2>(),
        3 => set_ops::<Own1, Gridbool<Own1, 1>, 1, 12, 2>(Default::default()),
        4 => set_ops::<Own1, HashSet<Own1>, 1, 12, 2>(Default::default()),
        _ => set_ops::<Own1, BTreeSet<Own1>, 1, 12, 2>(Default::default()),
    }
}
inst! {
    h_p17_own => own;
    h_p17_tokens_hash => tokens::<(HashMap<Pos<2, 1>, Tok>, Tok), Pos<2, 1>, 1, 6>;
    h_p17_tokens_tree => tokens::<(BTreeMap<Pos<2, 1>, Tok>, Tok), Pos<2, 1>, 1, 6>;
    h_p17_tuples_u8 => || tuples(|i| [u8::MAX, 0, 1][i as usize]);
    h_p17_tuples_i32 => || tuples(|i| [i32::MIN, -1, i32::MAX][i as usize]);
    h_p17_tuples_u64 => || tuples(|i| [0, 1 << 32, u64::MAX][i as usize]);
}
gdims! { "h" "p17", sym; 0 0, 5 0, 0 5, 32 0, 6 8, 7 7 }
gdims! { "t" "p17", sym; 15 15, 0 199 }
gdims! { "t" "p17", sym4; 2 1, 6 8 }
gdims! { "t" "p17", hash_fill; 9 9, 99 0, 0 99 }
gdims! { "t" "p17", tree_fill; 9 9, 99 0, 0 99 }
gdims! { "t" "p17", sets_fill; 9 9, 99 0, 0 99 }
gdims! { "h" "p17", grid3; 0 0, 5 0, 0 5, 2 1 }
gdims! { "h" "p17", hash3; 0 0, 2 1 }
gdims! { "h" "p17", tree3; 0 0, 5 0, 0 5, 2 1 }
gdims! { "h" "p17", sets3; 0 0, 5 0, 0 5, 2 1 }
gdims! { "h" "p17", grid_fill; 3 3, 7 4 }
gdims! { "h" "p17", hash_fill; 3 3, 7 4 }
gdims! { "h" "p17", tree_fill; 3 3, 7 4 }
gdims! { "h" "p17", sets_fill; 3 3, 7 4 }
gdims! { "h" "p17", wide; 299 2, 2 299, 255 256 }
gdims! { "t" "p17", wide; 65535 1 }
gdims! { "h" "p17", many; 18 16 }
gdims! { "t" "p17", many; 31 39 }
