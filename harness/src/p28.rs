//! Every origin; costs of 64 bits and any moves forbidden in grids with maxima (0,0) (1,0) (0,1) (2,0) (0,2); costs of
//! 8 bits in (3,0) (0,3), of 2 bits with any moves forbidden in (1,1) without diagonals; costs of one bit in (1,1) with diagonals, (2,1) (1,2);
//! multiples of 2^8, 2^16 and 2^32 of two bits in (1,1) without diagonals, of one bit with, and in (2,1);
//! six fixed landscapes in grids of 40 to 63 cells with any of six cells blocked or a winding way with six changes, any cells blocked in (2,2);
//! A*: as P20's small grids, any origin and destination. Grid, hash and tree maps of costs; four landscapes in grids of 289 to 529 cells and two origins without walls in 2624 and 7936 cells (thorough: 66000).
//! Movement functions that lead anywhere (also to the same cell), of costs of 8 bits: 2 cells of 2 directions, 2 bits: of 3, 1 bit: 3 of 2 (uniform-cost only).
//! Totals of usize::MAX or more are not decided.
//! Sizes that are multiples of 32 cells as sqrid_create! chooses: 32 and 64 cells (landscapes).
//! Positions of other types: a window of 3x2 cells, any of them blocked, at four places of the range of pairs of u8, i8, i32, u64 (hash and tree kinds), and
//! two user-defined types of 12 and 15 cells, any of four cells blocked (all kinds); four pairs of ends, two landscapes.
use crate::b::{Big, FAR};
use crate::o::*;
use crate::s::*;
use crate::{u, v};
use sqrid::*;
use std::collections::{BTreeMap, HashMap};

type Pair<P> = (P, Dir);
/// `it` yields each cell that can be reached once, after the cell that it is
/// reached from, along a least way; by growing totals if `sorted`.
/// A cell that is not reached has the total u64::MAX.
fn judge<const X: u16, const Y: u16, const D: bool>(prob: &Prob<X, Y>, orig: &Pos<X, Y>, cost: impl Fn(usize, usize) -> u64, sorted: bool, it: impl Iterator<Item = Pair<Pos<X, Y>>>) {
    let n = Prob::<X, Y>::N;
    let mut it = it;
    let mut total = [u64::MAX; 64];
    let mut seen = 0u64;
    let mut last = 0;
    let mut ok = true;
    while let Some((p, d)) = it.next() {
        let (i, d) = (idx(&p), dir_no(d));
        if seen >> i & 1 == 1 {
            check!(false);
            return;
        }
        total[i] = if seen == 0 {
            ok &= i == idx(orig);
            0
        } else {
            ok &= D || d % 2 == 0;
            match target::<X, Y>(i, d) {
                Some(t) => {
                    let b = (d + 4) % 8;
                    ok &= seen >> t & 1 == 1;
                    ok &= prob.may(t, b);
                    total[t].saturating_add(cost(t, b))
                }
                None => {
                    check!(false);
                    return;
                }
            }
        };
        if sorted {
            ok &= total[i] >= last;
            last = total[i];
        }
        seen |= 1 << i;
    }
    check!(ok);
    check!(seen != 0);
    // no move leads anywhere for less
    let mut least = true;
    for i in 0..n {
        if seen >> i & 1 == 1 {
            for d in 0..8 {
                if D || d % 2 == 0 {
                    if let Some(t) = target::<X, Y>(i, d) {
                        least &= !prob.may(i, d) | (total[t] <= total[i].saturating_add(cost(i, d)));
                    }
                }
            }
        }
    }
    check!(least);
    check!(it.next().is_none());
}
fn ucs_run<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(prob: Prob<X, Y>, cost: Costs<X, Y>, maps: u64) {
    let orig = any_pos::<X, Y>();
    let of = |i: usize, d: usize| cost.of[d * 64 + i];
    let go = |p, d| cost.go(&prob, p, d);
    match v::conc(v::below(maps)) {
        0 => judge::<X, Y, D>(&prob, &orig, of, true, ucs::UcsIterator::<_, Grid<usize, Pos<X, Y>, S>, Pos<X, Y>, D, W, S>::new(go, &orig)),
        1 => judge::<X, Y, D>(&prob, &orig, of, true, ucs::UcsIterator::<_, (HashMap<Pos<X, Y>, usize>, usize), Pos<X, Y>, D, W, S>::new(go, &orig)),
        _ => judge::<X, Y, D>(&prob, &orig, of, true, ucs::UcsIterator::<_, (BTreeMap<Pos<X, Y>, usize>, usize), Pos<X, Y>, D, W, S>::new(go, &orig)),
    }
}
fn full<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    ucs_run::<X, Y, D, W, S>(problem(kind, D), Costs::any(64, D), if few { 3 } else { 1 })
}
fn byte<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    ucs_run::<X, Y, D, W, S>(problem(kind, D), Costs::any(8, D), if few { 3 } else { 1 })
}
fn two<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    ucs_run::<X, Y, D, W, S>(problem(kind, D), Costs::any(2, D), if few { 3 } else { 1 })
}
fn scaled<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    ucs_run::<X, Y, D, W, S>(problem(kind, D), Costs::scaled(2, D), if few { 3 } else { 1 })
}
fn scaled_bit<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    ucs_run::<X, Y, D, W, S>(problem(kind, D), Costs::scaled(1, D), if few { 3 } else { 1 })
}
fn bit<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    ucs_run::<X, Y, D, W, S>(problem(kind, D), Costs::any(1, D), if few { 3 } else { 1 })
}
fn land<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    ucs_run::<X, Y, D, W, S>(problem(kind, D), Costs::terrain(v::conc(v::below(6))), if few { 3 } else { 1 })
}
fn astar_run<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    let prob = problem::<X, Y>(kind, D);
    let (orig, dest) = ends(few);
    let go = |p, d| prob.go(p, d);
    judge::<X, Y, D>(&prob, &orig, |_, _| 1, false, astar::AstarIterator::<_, Grid<usize, Pos<X, Y>, S>, Pos<X, Y>, D, W, S>::new(go, &orig, &dest))
}
/// a movement function that leads anywhere, for any cost
fn anywhere<const X: u16, const Y: u16, const DIRS: usize, const D: bool, const N: usize, const BITS: u32>() {
    let orig = any_pos::<X, Y>();
    // entry N: no move
    let mut to = [[N as u64; 8]; N];
    let mut cost = [[0u64; 8]; N];
    for i in 0..N {
        for k in 0..DIRS {
            let d = if D { [1, 5, 4, 7, 2, 6, 3, 0] } else { [2, 6, 0, 4, 2, 6, 0, 4] }[k];
            to[i][d] = v::below(N as u64 + 1);
            cost[i][d] = v::any(BITS);
        }
    }
    let go = |p: Pos<X, Y>, d: Dir| match v::conc(to[idx(&p)][dir_no(d)]) as usize {
        t if t < N => Some((nth::<X, Y>(t), cost[idx(&p)][dir_no(d)] as usize)),
        _ => None,
    };
    let mut total = [u64::MAX; N];
    let mut seen = 0u64;
    let mut last = 0;
    for (p, d) in ucs::UcsIterator::<_, Grid<usize, Pos<X, Y>, N>, Pos<X, Y>, D, 1, N>::new(go, &orig) {
        let i = idx(&p);
        if seen >> i & 1 == 1 {
            check!(false);
            return;
        }
        if seen == 0 {
            check!(i == idx(&orig));
            total[i] = 0;
        } else {
            let k = (dir_no(d) + 4) % 8;
            for j in 0..N {
                if seen >> j & 1 == 1 && v::conc(to[j][k]) == i as u64 {
                    total[i] = total[i].min(total[j] + cost[j][k]);
                }
            }
        }
        check!(total[i] >= last && total[i] != u64::MAX);
        last = total[i];
        seen |= 1 << i;
    }
    check!(seen != 0);
    let mut least = true;
    for i in 0..N {
        if seen >> i & 1 == 1 {
            for d in 0..8 {
                let t = v::conc(to[i][d]) as usize;
                if t < N {
                    least &= total[t] <= total[i] + cost[i][d];
                }
            }
        }
    }
    check!(least);
}
inst! {
    h_p28_anywhere_1x0 => anywhere::<1, 0, 2, false, 2, 8>;
    h_p28_anywhere_0x1 => anywhere::<0, 1, 3, true, 2, 2>;
    h_p28_anywhere_2x0 => anywhere::<2, 0, 2, false, 3, 1>;

    t_p28_anywhere_1x1 => anywhere::<1, 1, 1, true, 4, 8>;
    t_p28_anywhere_0x2 => anywhere::<0, 2, 3, false, 3, 4>;
}
/// in grids of hundreds of cells
fn big_judge<const X: u16, const Y: u16>(b: &Big<X, Y>, sorted: bool, it: impl Iterator<Item = Pair<Pos<X, Y>>>) {
    let least = b.least();
    let mut seen = vec![false; least.len()];
    let mut ok = true;
    let mut last = 0;
    let mut n = 0;
    for (p, d) in it {
        let i = idx(&p);
        ok &= !seen[i] && least[i] != FAR;
        if n == 0 {
            ok &= i == b.orig;
        } else {
            let d = dir_no(d);
            match target::<X, Y>(i, d) {
                Some(t) => ok &= seen[t] && b.total_of(t, (d + 4) % 8, least[t]) == least[i],
                None => ok = false,
            }
        }
        seen[i] = true;
        ok &= !sorted || least[i] >= last;
        last = least[i];
        n += 1;
        if !ok {
            break;
        }
    }
    check!(ok);
    check!((0..least.len()).all(|i| seen[i] == (least[i] != FAR)));
}
fn big_ucs<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>() {
    let mut b = Big::<X, Y>::any(D);
    b.kind = v::conc(v::below(4));
    let (orig, _) = b.ends();
    big_judge(&b, true, ucs::UcsIterator::<_, Grid<usize, Pos<X, Y>, S>, Pos<X, Y>, D, W, S>::new(|p, d| b.gocost(p, d), &orig))
}
fn big_astar<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>() {
    let b = Big::<X, Y>::any(D);
    let (orig, dest) = b.ends();
    big_judge(&b, false, astar::AstarIterator::<_, Grid<usize, Pos<X, Y>, S>, Pos<X, Y>, D, W, S>::new(|p, d| b.go(p, d), &orig, &dest))
}
big! { "h" "p28", big_ucs; 299 0 false, 0 299 true, 22 22 false, 16 17 true }
big! { "h" "p28", big_ucs; 255 30 false, 40 63 true }
big! { "t" "p28", big_ucs; 299 219 false }
big! { "h" "p28", big_astar; 299 0 false, 0 299 true, 22 22 false, 16 17 true }
big! { "h" "p28", big_astar; 255 30 false, 40 63 true }
big! { "t" "p28", big_astar; 299 219 false }
search! { "h" "p28", full true; 0 0 false OneWay, 1 0 true OneWay, 0 1 false OneWay, 2 0 false OneWay, 0 2 false OneWay }
search! { "h" "p28", byte true; 3 0 false OneWay, 0 3 false OneWay }
search! { "h" "p28", two false; 1 1 false OneWay }
search! { "h" "p28", bit false; 1 1 true Free, 2 1 false Free, 1 2 false Free }
search! { "h" "p28", land false; 8 6 false Free, 5 7 true Free, 39 0 false Free, 0 39 false Free, 5 5 true Window, 6 4 false Maze, 2 18 true Maze, 2 2 false Walls, 2 2 true Walls }
search! { "h" "p28", land true; 7 3 true Free, 7 7 false Free, 3 4 true Free, 1 1 false Walls }
search! { "h" "p28", astar_run false; 0 0 false OneWay, 1 0 true OneWay, 0 1 false OneWay, 4 0 false OneWay, 0 4 false OneWay, 1 1 false OneWay, 2 2 false Walls, 3 1 false Walls, 1 2 true Walls }
search! { "h" "p28", astar_run true; 2 2 true Walls, 1 1 true OneWay, 8 6 false Free, 8 6 true Free, 5 7 true Free, 5 5 true Window, 6 4 false Maze, 6 4 true Maze }
search! { "h" "p28", scaled false; 1 1 false Free }
search! { "h" "p28", scaled_bit false; 2 1 false Free, 1 1 true Free }
search! { "t" "p28", full true; 3 0 false OneWay, 0 3 false OneWay, 1 1 false Free }
search! { "t" "p28", two false; 1 1 true Free, 2 1 false Free }
search! { "t" "p28", bit false; 1 1 true OneWay, 2 1 false OneWay, 1 2 false OneWay }
search! { "t" "p28", land true; 3 3 false Walls, 3 2 true Walls, 6 6 true Window }
search! { "t" "p28", astar_run true; 3 3 false Walls, 3 2 true Walls, 2 2 false OneWay }

/// over other position types
fn other_ucs<P: Place, M: MapPos<usize, P, W, S> + Default, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(sub: Sub<P, X, Y>) {
    let prob = blocked::<X, Y>();
    let cost = Costs::terrain(1 + 2 * v::conc(v::any(1)));
    let orig = ends::<X, Y>(true).0;
    let o = sub.of(&orig);
    let it = ucs::UcsIterator::<_, M, P, D, W, S>::new(|p, d| sub.gocost(&prob, &cost, p, d), &o);
    judge::<X, Y, D>(&prob, &orig, |i, d| cost.of[d * 64 + i], true, it.map(|(p, d)| (sub.pos(&p), d)))
}
fn other_astar<P: Place, M: MapPos<usize, P, W, S> + Default, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(sub: Sub<P, X, Y>) {
    let prob = blocked::<X, Y>();
    let (orig, dest) = ends::<X, Y>(true);
    let (o, t) = (sub.of(&orig), sub.of(&dest));
    let it = astar::AstarIterator::<_, M, P, D, W, S>::new(|p, d| sub.go(&prob, p, d), &o, &t);
    judge::<X, Y, D>(&prob, &orig, |_, _| 1, false, it.map(|(p, d)| (sub.pos(&p), d)))
}
fn other<P: Place, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(sub: Sub<P, X, Y>) {
    match v::conc(v::below(4)) {
        0 => other_ucs::<P, (HashMap<P, usize>, usize), X, Y, D, W, S>(sub),
        1 => other_ucs::<P, (BTreeMap<P, usize>, usize), X, Y, D, W, S>(sub),
        2 => other_astar::<P, (HashMap<P, usize>, usize), X, Y, D, W, S>(sub),
        _ => other_astar::<P, (BTreeMap<P, usize>, usize), X, Y, D, W, S>(sub),
    }
}
fn grids<P: Place, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(sub: Sub<P, X, Y>) {
    match v::conc(v::below(3)) {
        0 => other_ucs::<P, Grid<usize, P, S>, X, Y, D, W, S>(sub),
        1 => other_astar::<P, Grid<usize, P, S>, X, Y, D, W, S>(sub),
        _ => other::<P, X, Y, D, W, S>(sub),
    }
}
others! { "p28", other grids; u8 i8 i32 u64 }
