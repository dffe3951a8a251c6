//! Every origin in each. Any set of forbidden moves (each of the moves of each cell on its own, also one-way) in
//! grids with maxima (0,0) (1,0) (0,1) (4,0) (0,4) (1,1) and, without diagonals, (2,1) (1,2) (thorough: with, and (2,2)
//! without); any set of blocked cells in (2,2) (4,1) (1,4) with and without diagonals (thorough: (3,3)
//! without, (3,2) with); any subset of six blocked cells around the 32nd cell of 6x6 and 9x7 and of corridors of 1x40 and 40x1;
//! movement functions that lead anywhere (also to the same cell) in 2 to 4 cells; all three set types;
//! three shapes of walls, six variations and four origins in grids of 289 to 529 cells and two origins without walls in 2624 and 7936 cells (thorough: 66000).
//! Sizes that are multiples of 32 cells as sqrid_create! chooses: 32 and 64 cells.
//! Positions of other types: a window of 3x2 cells, any of them blocked, at four places of the range of pairs of u8, i8, i32, u64 (hash and tree kinds), and
//! two user-defined types of 12 and 15 cells, any of four cells blocked (all kinds); four pairs of ends.
use crate::b::Big;
use crate::o::*;
use crate::s::*;
use crate::{u, v};
use sqrid::*;
use std::collections::{BTreeSet, HashSet};

fn layers<const X: u16, const Y: u16, const D: bool>(prob: &Prob<X, Y>, orig: &Pos<X, Y>, it: impl Iterator<Item = Vec<(Pos<X, Y>, Dir)>>) {
    let mut it = it;
    let mut last = 1u64 << idx(orig);
    let mut seen = last;
    let mut n = 0;
    loop {
        let want = prob.step(last, D) & !seen;
        let Some(batch) = it.next() else {
            check!(want == 0);
            break;
        };
        n += 1;
        if n > Prob::<X, Y>::N {
            check!(false);
            break;
        }
        let mut got = 0u64;
        let mut ok = !batch.is_empty();
        for (p, d) in &batch {
            let (i, d) = (idx(p), dir_no(*d));
            // each once
            ok &= got >> i & 1 == 0;
            got |= 1 << i;
            // back to one of the batch before, from which it can be reached
            ok &= D || d % 2 == 0;
            match target::<X, Y>(i, d) {
                Some(t) => {
                    ok &= last >> t & 1 == 1;
                    ok &= prob.may(t, (d + 4) % 8);
                }
                None => ok = false,
            }
        }
        check!(ok);
        check!(got == want);
        seen |= got;
        last = got;
    }
    check!(it.next().is_none());
}
fn run<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(prob: Prob<X, Y>, kinds: u64) {
    let orig = any_pos::<X, Y>();
    let go = |p, d| prob.go(p, d);
    match v::conc(v::below(kinds)) {
        0 => layers::<X, Y, D>(&prob, &orig, Sqrid::<X, Y, D, W, S>::bf_iter(go, &orig)),
        1 => layers::<X, Y, D>(&prob, &orig, Sqrid::<X, Y, D, W, S>::bf_iter_hash(go, &orig)),
        2 => layers::<X, Y, D>(&prob, &orig, Sqrid::<X, Y, D, W, S>::bf_iter_btree(go, &orig)),
        3 => layers::<X, Y, D>(&prob, &orig, Sqrid::<X, Y, D, W, S>::bf_iter_grid(go, &orig)),
        4 => layers::<X, Y, D>(&prob, &orig, sqrid::bf::bf_iter_grid::<_, Pos<X, Y>, D, W, S>(go, &orig)),
        5 => layers::<X, Y, D>(&prob, &orig, sqrid::bf::bf_iter_hash::<_, Pos<X, Y>, D, W, S>(go, &orig)),
        6 => layers::<X, Y, D>(&prob, &orig, sqrid::bf::bf_iter_btree::<_, Pos<X, Y>, D, W, S>(go, &orig)),
        7 => layers::<X, Y, D>(&prob, &orig, sqrid::bf::BfIterator::<_, Gridbool<Pos<X, Y>, W>, _, D, W, S>::new(go, &orig)),
        _ => layers::<X, Y, D>(&prob, &orig, sqrid::bf::bf_iter::<_, HashSet<Pos<X, Y>>, _, D, W, S>(go, &orig)),
    }
}
fn one_way4<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    run::<X, Y, false, W, S>(Prob::one_way(u64::MAX, false), 1)
}
fn one_way8<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    run::<X, Y, true, W, S>(Prob::one_way(u64::MAX, true), 1)
}
fn walls4<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    run::<X, Y, false, W, S>(Prob::walls(v::any(S as u32), 0), 1)
}
fn walls8<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    run::<X, Y, true, W, S>(Prob::walls(v::any(S as u32), 0), 1)
}
/// all kinds
fn kinds4<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    run::<X, Y, false, W, S>(Prob::walls(v::any(S as u32), 0), 9)
}
fn kinds8<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    run::<X, Y, true, W, S>(Prob::walls(v::any(S as u32), 0), 9)
}
/// walls within six cells around the 32nd
fn window4<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    run::<X, Y, false, W, S>(Prob::walls(v::any(6) << 28, 0), 2)
}
fn window8<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    run::<X, Y, true, W, S>(Prob::walls(v::any(6) << 28, 0), 2)
}
gdims! { "h" "p18", one_way4; 0 0, 1 0, 0 1, 4 0, 0 4, 1 1, 2 1, 1 2 }
gdims! { "h" "p18", one_way8; 0 0, 1 0, 0 1, 1 1 }
gdims! { "h" "p18", walls4; 2 2, 4 1, 1 4 }
gdims! { "h" "p18", walls8; 2 2, 4 1, 1 4 }
gdims! { "h" "p18", kinds4; 1 1, 2 1 }
gdims! { "h" "p18", kinds8; 1 1, 1 2 }
gdims! { "h" "p18", window4; 5 5, 8 6, 39 0, 0 39 }
gdims! { "h" "p18", window8; 5 5, 8 6 }
gdims! { "t" "p18", one_way8; 2 1, 1 2 }
gdims! { "t" "p18", one_way4; 2 2 }
gdims! { "t" "p18", walls4; 3 3 }
gdims! { "t" "p18", walls8; 3 2 }

/// with as many words as sqrid_create! asks for, which differs in grids of a multiple of 32 cells
fn created<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, _few: bool) {
    run::<X, Y, D, W, S>(problem(kind, D), 9)
}
search! { "h" "p18", created false; 7 3 true Free, 7 7 false Free, 1 1 false OneWay, 2 1 true Walls }
/// all batches, in grids of hundreds of cells
fn big<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>() {
    let b = Big::<X, Y>::any(D);
    let least = b.least();
    let (orig, _) = b.ends();
    let far = least.iter().filter(|c| **c != crate::b::FAR).max().copied().unwrap_or(0);
    let mut seen = vec![false; S];
    let mut n = 0;
    let mut cells = 1;
    let mut ok = true;
    for batch in Sqrid::<X, Y, D, W, S>::bf_iter(|p, d| b.go(p, d), &orig) {
        n += 1;
        for (p, d) in batch {
            let i = idx(&p);
            ok &= !seen[i] && least[i] == n;
            seen[i] = true;
            cells += 1;
            let d = dir_no(d);
            ok &= D || d % 2 == 0;
            ok &= target::<X, Y>(i, d).is_some_and(|t| least[t] == n - 1);
        }
    }
    check!(ok);
    check!(n == far);
    check!(cells == least.iter().filter(|c| **c != crate::b::FAR).count());
}
big! { "h" "p18", big; 299 0 false, 0 299 true, 22 22 false, 16 17 true }
big! { "h" "p18", big; 255 30 false, 40 63 true }
big! { "t" "p18", big; 299 219 false }
/// a movement function that leads anywhere
fn anywhere<const X: u16, const Y: u16, const DIRS: usize, const D: bool, const N: usize>() {
    let orig = any_pos::<X, Y>();
    // entry N: no move
    let mut to = [[N as u64; 8]; N];
    for i in 0..N {
        for k in 0..DIRS {
            to[i][if D { [1, 5, 4, 7, 2, 6, 3, 0] } else { [2, 6, 0, 4, 2, 6, 0, 4] }[k]] = v::below(N as u64 + 1);
        }
    }
    let go = |p: Pos<X, Y>, d: Dir| match v::conc(to[idx(&p)][dir_no(d)]) as usize {
        t if t < N => Some(nth::<X, Y>(t)),
        _ => None,
    };
    let mut last = 1u64 << idx(&orig);
    let mut seen = last;
    let mut n = 0;
    let mut it = Sqrid::<X, Y, D, 1, N>::bf_iter(&go, &orig);
    loop {
        let mut want = 0u64;
        for i in 0..N {
            for k in 0..8 {
                if last >> i & 1 == 1 && (D || k % 2 == 0) {
                    want |= 1 << v::conc(to[i][k]);
                }
            }
        }
        want &= !seen & ((1 << N) - 1);
        let Some(batch) = it.next() else {
            check!(want == 0);
            break;
        };
        n += 1;
        if n > N {
            check!(false);
            break;
        }
        let mut got = 0u64;
        let mut ok = true;
        for (p, d) in &batch {
            let i = idx(p);
            ok &= got >> i & 1 == 0;
            got |= 1 << i;
            // reached by the opposite of its direction from one of the batch before
            let k = (dir_no(*d) + 4) % 8;
            let mut from = false;
            for j in 0..N {
                from |= last >> j & 1 == 1 && to[j][k] == i as u64;
            }
            ok &= from;
        }
        check!(ok);
        check!(got == want);
        seen |= got;
        last = got;
    }
}
inst! {
    h_p18_anywhere_1x0 => anywhere::<1, 0, 4, false, 2>;
    h_p18_anywhere_0x1 => anywhere::<0, 1, 5, true, 2>;
    h_p18_anywhere_2x0 => anywhere::<2, 0, 2, false, 3>;
    h_p18_anywhere_2x0_8 => anywhere::<2, 0, 2, true, 3>;
    h_p18_anywhere_1x1 => anywhere::<1, 1, 1, true, 4>;
    t_p18_anywhere_0x2 => anywhere::<0, 2, 3, false, 3>;
    t_p18_anywhere_1x1 => anywhere::<1, 1, 2, true, 4>;
}

/// over other position types
fn other_by<P: Place, const X: u16, const Y: u16, const D: bool, I: Iterator<Item = Vec<(P, Dir)>>>(sub: &Sub<P, X, Y>, prob: &Prob<X, Y>, orig: &Pos<X, Y>, it: I) {
    let back = |b: Vec<(P, Dir)>| -> Vec<_> { b.into_iter().map(|(p, d)| (sub.pos(&p), d)).collect() };
    layers::<X, Y, D>(prob, orig, it.map(back))
}
fn other<P: Place, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(sub: Sub<P, X, Y>) {
    let (prob, orig) = (blocked::<X, Y>(), ends::<X, Y>(true).0);
    let (o, go) = (sub.of(&orig), |p, d| sub.go(&prob, p, d));
    if v::conc(v::any(1)) == 1 {
        other_by::<P, X, Y, D, _>(&sub, &prob, &orig, sqrid::bf::bf_iter_hash::<_, P, D, W, S>(go, &o))
    } else {
        other_by::<P, X, Y, D, _>(&sub, &prob, &orig, sqrid::bf::bf_iter_btree::<_, P, D, W, S>(go, &o))
    }
}
fn grids<P: Place, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(sub: Sub<P, X, Y>) {
    if v::conc(v::any(1)) == 1 {
        return other::<P, X, Y, D, W, S>(sub);
    }
    let (prob, orig) = (blocked::<X, Y>(), ends::<X, Y>(true).0);
    let (o, go) = (sub.of(&orig), |p, d| sub.go(&prob, p, d));
    other_by::<P, X, Y, D, _>(&sub, &prob, &orig, sqrid::bf::bf_iter_grid::<_, P, D, W, S>(go, &o))
}
others! { "p18", other grids; u8 i8 i32 u64 }
