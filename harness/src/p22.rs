//! Breadth-first and A* search: any moves forbidden in grids with maxima (0,0) (4,0) (0,4) with any ends, (1,1) with
//! diagonals, (2,1) with four pairs of ends; then also any cells blocked in (2,2) and any of six in (5,5) (8,6) (6,6) (0,39).
//! Uniform-cost search with four pairs of ends over six landscapes: any moves forbidden in (4,0) (0,4), any cells blocked in (2,1) (2,2), any of six in (6,6) (0,39); any costs
//! of 64 bits in (2,0) (0,2), of 2 bits in (1,1), and any moves forbidden. Seven entry points each; three of each over three shapes of walls, six variations
//! and four pairs of ends in grids of 289 to 529 cells and two origins without walls in 2624 and 7936 cells (thorough: 66000). HashMap's keys are
//! one fixed pair. Thorough: larger ones.
//! Sizes that are multiples of 32 cells as sqrid_create! chooses: 32 cells (free).
//! Positions of other types: a window of 3x2 cells, any of them blocked, at four places of the range of pairs of u8, i8, i32, u64 (hash and tree kinds), and
//! two user-defined types of 12 and 15 cells, any of four cells blocked (all kinds); four pairs of ends, two landscapes.
use crate::b::Big;
use crate::o::*;
use crate::s::*;
use crate::{u, v};
use sqrid::*;

type Path = Result<Vec<Dir>, Error>;
/// all give a valid way from `orig`, of the same length and to the same cell, or all fail alike
fn same<const X: u16, const Y: u16>(prob: &Prob<X, Y>, orig: &Pos<X, Y>, diag: bool, to: Option<usize>, cost: Option<&Costs<X, Y>>, got: &[Path]) {
    for g in got {
        match (g, &got[0]) {
            (Ok(p), Ok(q)) => {
                let (ok, end) = prob.follow(orig, p, diag);
                check!(ok);
                check!(Some(end) == to);
                match cost {
                    None => check!(p.len() == q.len()),
                    Some(c) => check!(c.total(orig, p) == c.total(orig, q)),
                }
            }
            (Err(e), Err(f)) => check!(e == f),
            _ => check!(false),
        }
    }
}
fn bfs<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    let prob = problem::<X, Y>(kind, D);
    let (orig, dest) = ends(few);
    let go = |p, d| prob.go(p, d);
    let all = [
        Sqrid::<X, Y, D, W, S>::bfs_path(go, &orig, |p| p == dest),
        Sqrid::<X, Y, D, W, S>::bfs_path_grid(go, &orig, |p| p == dest),
        Sqrid::<X, Y, D, W, S>::bfs_path_hash(go, &orig, |p| p == dest),
        Sqrid::<X, Y, D, W, S>::bfs_path_btree(go, &orig, |p| p == dest),
        bf::search_path_grid::<_, _, Pos<X, Y>, D, W, S>(go, &orig, |p| p == dest),
        bf::search_path_hash::<_, _, Pos<X, Y>, D, W, S>(go, &orig, |p| p == dest),
        bf::search_path_btree::<_, _, Pos<X, Y>, D, W, S>(go, &orig, |p| p == dest),
    ];
    let all = all.map(|r| {
        r.map(|(p, path)| {
            check!(p == dest);
            path
        })
    });
    same(&prob, &orig, D, Some(idx(&dest)), None, &all)
}
fn astar<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    let prob = problem::<X, Y>(kind, D);
    let (orig, dest) = ends(few);
    let go = |p, d| prob.go(p, d);
    let all = [
        Sqrid::<X, Y, D, W, S>::astar_path(go, &orig, &dest),
        Sqrid::<X, Y, D, W, S>::astar_path_grid(go, &orig, &dest),
        Sqrid::<X, Y, D, W, S>::astar_path_hash(go, &orig, &dest),
        Sqrid::<X, Y, D, W, S>::astar_path_btree(go, &orig, &dest),
        astar::search_path_grid::<_, Pos<X, Y>, D, W, S>(go, &orig, &dest),
        astar::search_path_hash::<_, Pos<X, Y>, D, W, S>(go, &orig, &dest),
        astar::search_path_btree::<_, Pos<X, Y>, D, W, S>(go, &orig, &dest),
    ];
    same(&prob, &orig, D, Some(idx(&dest)), None, &all)
}
fn ucs_with<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(prob: Prob<X, Y>, cost: Costs<X, Y>, few: bool) {
    let (orig, dest) = ends(few);
    let go = |p, d| cost.go(&prob, p, d);
    let all = [
        Sqrid::<X, Y, D, W, S>::ucs_path(go, &orig, &dest),
        Sqrid::<X, Y, D, W, S>::ucs_path_grid(go, &orig, &dest),
        Sqrid::<X, Y, D, W, S>::ucs_path_hash(go, &orig, &dest),
        Sqrid::<X, Y, D, W, S>::ucs_path_btree(go, &orig, &dest),
        ucs::search_path_grid::<_, Pos<X, Y>, D, W, S>(go, &orig, &dest),
        ucs::search_path_hash::<_, Pos<X, Y>, D, W, S>(go, &orig, &dest),
        ucs::search_path_btree::<_, Pos<X, Y>, D, W, S>(go, &orig, &dest),
    ];
    same(&prob, &orig, D, Some(idx(&dest)), Some(&cost), &all)
}
fn ucs<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    ucs_with::<X, Y, D, W, S>(problem(kind, D), Costs::terrain(v::conc(v::below(6))), few)
}
/// any cost that a move can have
fn ucsany<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    ucs_with::<X, Y, D, W, S>(problem(kind, D), Costs::any(64, D), few)
}
/// costs up to 3
fn ucsfew<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    ucs_with::<X, Y, D, W, S>(problem(kind, D), Costs::any(2, D), few)
}
/// in grids of hundreds of cells
fn big<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>() {
    let mut b = Big::<X, Y>::any(D);
    b.kind = 1;
    let (orig, dest) = b.ends();
    let go = |p, d| b.go(p, d);
    let gocost = |p, d| b.gocost(p, d);
    let end = |r: Result<(Pos<X, Y>, Vec<Dir>), Error>| {
        r.map(|(p, path)| {
            check!(p == dest);
            path
        })
    };
    let (all, costs) = match v::conc(v::below(3)) {
        0 => (
            [
                end(Sqrid::<X, Y, D, W, S>::bfs_path_grid(go, &orig, |p| p == dest)),
                end(Sqrid::<X, Y, D, W, S>::bfs_path_hash(go, &orig, |p| p == dest)),
                end(Sqrid::<X, Y, D, W, S>::bfs_path_btree(go, &orig, |p| p == dest)),
            ],
            false,
        ),
        1 => (
            [
                Sqrid::<X, Y, D, W, S>::astar_path_grid(go, &orig, &dest),
                Sqrid::<X, Y, D, W, S>::astar_path_hash(go, &orig, &dest),
                Sqrid::<X, Y, D, W, S>::astar_path_btree(go, &orig, &dest),
            ],
            false,
        ),
        _ => (
            [
                Sqrid::<X, Y, D, W, S>::ucs_path_grid(gocost, &orig, &dest),
                Sqrid::<X, Y, D, W, S>::ucs_path_hash(gocost, &orig, &dest),
                Sqrid::<X, Y, D, W, S>::ucs_path_btree(gocost, &orig, &dest),
            ],
            true,
        ),
    };
    for g in &all {
        match (g, &all[0]) {
            (Ok(p), Ok(q)) => {
                let (p, q, a) = (p.len() as u64, q.len() as u64, (b.total(p), b.total(q)));
                check!(a.0 != crate::b::FAR);
                check!(if costs { a.0 == a.1 } else { p == q });
            }
            (Err(e), Err(f)) => check!(e == f),
            _ => check!(false),
        }
    }
}
big! { "h" "p22", big; 299 0 false, 0 299 true, 22 22 false, 16 17 true }
big! { "h" "p22", big; 255 30 false, 40 63 true }
big! { "t" "p22", big; 299 219 false }
search! { "h" "p22", bfs false; 0 0 true OneWay, 4 0 false OneWay, 0 4 false OneWay, 1 1 true OneWay }
search! { "h" "p22", bfs true; 7 3 true Free, 7 7 false Free, 2 1 false OneWay, 2 2 false Walls, 2 2 true Walls, 5 5 true Window, 8 6 false Window, 6 6 false Maze, 0 39 false Window }
search! { "h" "p22", astar false; 0 0 true OneWay, 4 0 false OneWay, 0 4 false OneWay, 1 1 true OneWay }
search! { "h" "p22", astar true; 7 3 true Free, 2 1 false OneWay, 2 2 false Walls, 2 2 true Walls, 5 5 true Window, 8 6 false Window, 6 6 false Maze, 0 39 false Window }
search! { "h" "p22", ucs true; 7 3 true Free, 4 0 false OneWay, 0 4 false OneWay, 2 1 false Walls, 2 2 false Walls, 2 2 true Walls, 6 6 false Maze, 0 39 false Window }
search! { "h" "p22", ucsany false; 2 0 false OneWay, 0 2 false OneWay }
search! { "h" "p22", ucsfew true; 1 1 false OneWay }
search! { "t" "p22", ucs true; 1 1 true OneWay, 2 1 false OneWay, 5 5 true Window, 8 6 false Window }
search! { "t" "p22", ucsfew true; 1 1 true Free }
search! { "t" "p22", bfs true; 2 2 true OneWay, 3 3 false Walls, 3 2 true Walls }
search! { "t" "p22", astar true; 2 2 false OneWay, 3 3 false Walls, 3 2 true Walls }

/// over other position types
fn other<P: Place, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(sub: Sub<P, X, Y>) {
    let prob = blocked::<X, Y>();
    let (orig, dest) = ends::<X, Y>(true);
    let (o, t) = (sub.of(&orig), sub.of(&dest));
    let go = |p, d| sub.go(&prob, p, d);
    let what = v::conc(v::below(3));
    let cost = Costs::terrain(if what == 2 { 1 + 2 * v::conc(v::any(1)) } else { 0 });
    let gocost = |p, d| sub.gocost(&prob, &cost, p, d);
    match what {
        0 => same(&prob, &orig, D, Some(idx(&dest)), None, &[bf::search_path_hash::<_, _, P, D, W, S>(go, &o, |p| p == t).map(|r| r.1), bf::search_path_btree::<_, _, P, D, W, S>(go, &o, |p| p == t).map(|r| r.1)]),
        1 => same(&prob, &orig, D, Some(idx(&dest)), None, &[astar::search_path_hash::<_, P, D, W, S>(go, &o, &t), astar::search_path_btree::<_, P, D, W, S>(go, &o, &t)]),
        _ => same(&prob, &orig, D, Some(idx(&dest)), Some(&cost), &[ucs::search_path_hash::<_, P, D, W, S>(gocost, &o, &t), ucs::search_path_btree::<_, P, D, W, S>(gocost, &o, &t)]),
    }
}
fn grids<P: Place, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(sub: Sub<P, X, Y>) {
    let prob = blocked::<X, Y>();
    let (orig, dest) = ends::<X, Y>(true);
    let (o, t) = (sub.of(&orig), sub.of(&dest));
    let go = |p, d| sub.go(&prob, p, d);
    let what = v::conc(v::below(3));
    let cost = Costs::terrain(if what == 2 { 1 + 2 * v::conc(v::any(1)) } else { 0 });
    let gocost = |p, d| sub.gocost(&prob, &cost, p, d);
    match what {
        0 => same(&prob, &orig, D, Some(idx(&dest)), None, &[bf::search_path_hash::<_, _, P, D, W, S>(go, &o, |p| p == t).map(|r| r.1), bf::search_path_btree::<_, _, P, D, W, S>(go, &o, |p| p == t).map(|r| r.1), bf::search_path_grid::<_, _, P, D, W, S>(go, &o, |p| p == t).map(|r| r.1)]),
        1 => same(&prob, &orig, D, Some(idx(&dest)), None, &[astar::search_path_hash::<_, P, D, W, S>(go, &o, &t), astar::search_path_btree::<_, P, D, W, S>(go, &o, &t), astar::search_path_grid::<_, P, D, W, S>(go, &o, &t)]),
        _ => same(&prob, &orig, D, Some(idx(&dest)), Some(&cost), &[ucs::search_path_hash::<_, P, D, W, S>(gocost, &o, &t), ucs::search_path_btree::<_, P, D, W, S>(gocost, &o, &t), ucs::search_path_grid::<_, P, D, W, S>(gocost, &o, &t)]),
    }
}
others! { "p22", other grids; u8 i8 i32 u64 }
