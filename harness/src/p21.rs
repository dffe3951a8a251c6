//! Any non-negative costs and any moves forbidden, judged against all other ways: costs of 64 bits in grids with maxima (0,0) (1,0) (0,1) (2,0) (0,2); of 16 bits in (3,0) (0,3) (1,1) without diagonals;
//! multiples of 2^8, 2^16 and 2^32 of two bits in (1,1), of one in (2,1); of 3 bits with none forbidden in (1,1) with diagonals; costs of one bit in (1,1) with diagonals, (2,1) (1,2);
//! six fixed landscapes (uphill, roads, free moves, enormous costs) with four pairs of ends: grids of 40 to 63 cells,
//! any of six cells blocked in five of them, any cells in (2,2); four landscapes,
//! three shapes of walls, six variations and four pairs of ends in grids of 289 to 529 cells and two origins without walls in 2624 and 7936 cells (thorough: 66000). Least totals of usize::MAX or more are not decided.
//! Thorough: 64 bits in (3,0) (0,3) (1,1); 16 bits with none forbidden in (1,1) with diagonals, 16 and 3 bits in (2,1) (1,2) and with forbidden moves in (1,1) with diagonals; landscapes in (3,3) (3,2).
//! Sizes that are multiples of 32 cells as sqrid_create! chooses: 32 and 64 cells (landscapes).
//! Positions of other types: a window of 3x2 cells, any of them blocked, at four places of the range of pairs of u8, i8, i32, u64 (hash and tree kinds), and
//! two user-defined types of 12 and 15 cells, any of four cells blocked (all kinds); four pairs of ends, two landscapes.
use crate::b::Big;
use crate::o::*;
use crate::s::*;
use crate::{u, v};
use sqrid::*;

fn run<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(prob: &Prob<X, Y>, cost: &Costs<X, Y>, orig: &Pos<X, Y>, dest: &Pos<X, Y>) -> Option<u64> {
    match Sqrid::<X, Y, D, W, S>::ucs_path(|p, d| cost.go(prob, p, d), orig, dest) {
        Ok(path) => {
            let (ok, end) = prob.follow(orig, &path, D);
            check!(ok);
            check!(end == idx(dest));
            Some(cost.total(orig, &path))
        }
        Err(e) => {
            check!(e == Error::DestinationUnreachable);
            None
        }
    }
}
/// compare with every other way
fn judge<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(prob: Prob<X, Y>, cost: Costs<X, Y>, few: bool) {
    let (orig, dest) = ends(few);
    let got = run::<X, Y, D, W, S>(&prob, &cost, &orig, &dest);
    cost.ways(&prob, idx(&orig), idx(&dest), 0, D, true, 0, &|open, total| match got {
        Some(t) => check!(!open | (t <= total)),
        // totals as large as usize::MAX are outside the bounds
        None => check!(!open | (total == u64::MAX)),
    })
}
/// any cost that a move can have
fn full<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    judge::<X, Y, D, W, S>(problem(kind, D), Costs::any(64, D), few)
}
/// costs up to 7
fn small<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    judge::<X, Y, D, W, S>(problem(kind, D), Costs::any(3, D), few)
}
/// small multiples of 2^8, 2^16 or 2^32
fn scaled<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    judge::<X, Y, D, W, S>(problem(kind, D), Costs::scaled(2, D), few)
}
fn scaled_bit<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    judge::<X, Y, D, W, S>(problem(kind, D), Costs::scaled(1, D), few)
}
/// costs of 0 or 1
fn bit<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    judge::<X, Y, D, W, S>(problem(kind, D), Costs::any(1, D), few)
}
fn land<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    let prob = problem(kind, D);
    let cost = Costs::terrain(v::conc(v::below(6)));
    let (orig, dest) = ends(few);
    let got = run::<X, Y, D, W, S>(&prob, &cost, &orig, &dest);
    // The search did the same whether the cells that it did not look at are
    // blocked or not, and the others can only be better if they are not.
    v::assume(prob.wall & prob.any & !cost.seen.get() == 0);
    let known = Prob::walls(v::conc(prob.wall), 0);
    let least = cost.least(&known, idx(&orig), idx(&dest), D);
    match got {
        Some(t) => check!(t == least),
        None => check!(least == u64::MAX),
    }
}
/// costs up to 65535
fn wide<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    judge::<X, Y, D, W, S>(problem(kind, D), Costs::any(16, D), few)
}
/// in grids of hundreds of cells
fn big<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>() {
    let mut b = Big::<X, Y>::any(D);
    b.kind = v::conc(v::below(4));
    let (orig, dest) = b.ends();
    check!(b.best(&Sqrid::<X, Y, D, W, S>::ucs_path(|p, d| b.gocost(p, d), &orig, &dest)));
}
big! { "h" "p21", big; 299 0 false, 0 299 true, 22 22 false, 16 17 true }
big! { "h" "p21", big; 255 30 false, 40 63 true }
big! { "t" "p21", big; 299 219 false }
search! { "h" "p21", full false; 0 0 false OneWay, 1 0 true OneWay, 0 1 false OneWay, 2 0 false OneWay, 0 2 false OneWay }
search! { "h" "p21", wide false; 3 0 false OneWay, 0 3 false OneWay, 1 1 false OneWay }
search! { "h" "p21", small false; 1 1 true Free }
search! { "h" "p21", bit false; 1 1 true Free }
search! { "h" "p21", bit true; 2 1 false Free, 1 2 false Free, 1 1 true OneWay }
search! { "h" "p21", land true; 7 3 true Free, 7 7 false Free, 8 6 false Free, 8 6 true Free, 5 7 true Free, 39 0 false Free, 0 39 false Free, 5 5 true Window, 6 4 false Maze, 6 6 true Maze, 2 18 false Maze, 2 2 false Walls, 2 2 true Walls }
search! { "h" "p21", scaled true; 1 1 false Free, 1 1 true Free }
search! { "h" "p21", scaled_bit true; 2 1 false Free }
search! { "t" "p21", full false; 3 0 false OneWay, 0 3 false OneWay, 1 1 false OneWay, 4 0 false Free, 1 1 false Free }
search! { "t" "p21", wide true; 1 1 true Free, 2 1 false Free, 1 2 false Free, 1 1 true OneWay }
search! { "t" "p21", small true; 2 1 false Free, 1 2 false Free, 1 1 true OneWay, 2 1 false OneWay }
search! { "t" "p21", land true; 3 3 false Walls, 3 2 true Walls, 2 2 false OneWay }
search! { "t" "p21", land false; 8 6 true Free, 6 8 false Free, 6 6 true Window }

/// over other position types
fn other_by<P: Place, const X: u16, const Y: u16, const D: bool>(sub: Sub<P, X, Y>, run: impl FnOnce(&dyn Fn(P, Dir) -> Option<(P, usize)>, &P, &P) -> Result<Vec<Dir>, Error>) {
    let prob = blocked::<X, Y>();
    let cost = Costs::terrain(1 + 2 * v::conc(v::any(1)));
    let (orig, dest) = ends::<X, Y>(true);
    let got = run(&|p, d| sub.gocost(&prob, &cost, p, d), &sub.of(&orig), &sub.of(&dest));
    let known = Prob::walls(v::conc(prob.wall), 0);
    let least = cost.least(&known, idx(&orig), idx(&dest), D);
    match got {
        Ok(path) => {
            let (ok, end) = known.follow(&orig, &path, D);
            check!(ok && end == idx(&dest));
            check!(cost.total(&orig, &path) == least);
        }
        Err(e) => check!(e == Error::DestinationUnreachable && least == u64::MAX),
    }
}
fn other<P: Place, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(sub: Sub<P, X, Y>) {
    if v::conc(v::any(1)) == 1 {
        other_by::<P, X, Y, D>(sub, |go, o, t| ucs::search_path_hash::<_, P, D, W, S>(go, o, t))
    } else {
        other_by::<P, X, Y, D>(sub, |go, o, t| ucs::search_path_btree::<_, P, D, W, S>(go, o, t))
    }
}
fn grids<P: Place, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(sub: Sub<P, X, Y>) {
    if v::conc(v::any(1)) == 1 {
        return other::<P, X, Y, D, W, S>(sub);
    }
    other_by::<P, X, Y, D>(sub, |go, o, t| ucs::search_path_grid::<_, P, D, W, S>(go, o, t))
}
others! { "p21", other grids; u8 i8 i32 u64 }
