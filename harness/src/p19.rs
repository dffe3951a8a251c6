//! Any set of goals, any origin, with any moves forbidden in grids with maxima (0,0) (1,0) (0,1) (4,0) (0,4) (1,1) and, without
//! diagonals, (2,1) (1,2); with any cells blocked in (2,2) (4,1) (1,4) and with and without diagonals;
//! any single goal with none blocked in grids of 40 to 63 cells, with any of six cells around the 32nd blocked
//! and in a winding way with any of six cells changed;
//! three shapes of walls, six variations and four pairs of ends in grids of 289 to 529 cells and two origins without walls in 2624 and 7936 cells (thorough: 66000); thorough: (3,3), (3,2) with blocked cells, (2,2) with forbidden moves.
//! Sizes that are multiples of 32 cells as sqrid_create! chooses: 32 cells (free) and 64 cells (a winding way).
//! Positions of other types: a window of 3x2 cells, any of them blocked, at four places of the range of pairs of u8, i8, i32, u64 (hash and tree kinds), and
//! two user-defined types of 12 and 15 cells, any of four cells blocked (all kinds); four pairs of ends.
use crate::b::Big;
use crate::o::*;
use crate::s::*;
use crate::{u, v};
use sqrid::*;

fn judge<const X: u16, const Y: u16, const D: bool>(prob: &Prob<X, Y>, orig: &Pos<X, Y>, goals: u64, got: Result<(Pos<X, Y>, Vec<Dir>), Error>) {
    match got {
        Ok((pos, path)) => {
            let (ok, end) = prob.follow(orig, &path, D);
            check!(ok);
            check!(end == idx(&pos));
            check!(goals >> end & 1 == 1);
            check!(prob.fewest(idx(orig), goals, D, path.len()));
        }
        Err(e) => {
            check!(prob.none(idx(orig), goals, D));
            check!(e == Error::DestinationUnreachable);
        }
    }
}
/// any set of goals
fn goals<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    let prob = problem::<X, Y>(kind, D);
    let orig = if few { ends(true).0 } else { any_pos() };
    let goals = v::any(S as u32);
    let got = Sqrid::<X, Y, D, W, S>::bfs_path(|p, d| prob.go(p, d), &orig, |p| goals >> idx(&p) & 1 == 1);
    judge::<X, Y, D>(&prob, &orig, goals, got)
}
/// one goal
fn goal<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    let prob = problem::<X, Y>(kind, D);
    let (orig, dest) = ends(few);
    let got = Sqrid::<X, Y, D, W, S>::bfs_path(|p, d| prob.go(p, d), &orig, |p| p == dest);
    judge::<X, Y, D>(&prob, &orig, 1 << idx(&dest), got)
}
/// in grids of hundreds of cells
fn big<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>() {
    let b = Big::<X, Y>::any(D);
    let (orig, dest) = b.ends();
    let got = Sqrid::<X, Y, D, W, S>::bfs_path(|p, d| b.go(p, d), &orig, |p| p == dest);
    let got = got.map(|(p, path)| {
        check!(p == dest);
        path
    });
    check!(b.best(&got));
}
big! { "h" "p19", big; 299 0 false, 0 299 true, 22 22 false, 16 17 true }
big! { "h" "p19", big; 255 30 false, 40 63 true }
big! { "t" "p19", big; 299 219 false }
search! { "h" "p19", goals false; 0 0 false OneWay, 1 0 true OneWay, 0 1 false OneWay, 4 0 false OneWay, 0 4 false OneWay, 1 1 false OneWay, 1 1 true OneWay, 2 1 false OneWay, 1 2 false OneWay }
search! { "h" "p19", goals false; 2 2 false Walls, 2 2 true Walls, 4 1 false Walls, 1 4 false Walls, 1 4 true Walls }
search! { "h" "p19", goal false; 8 6 false Free, 8 6 true Free, 5 7 true Free, 39 0 false Free, 0 39 false Free }
search! { "h" "p19", goal true; 7 3 true Free, 7 7 false Maze, 5 5 true Window, 8 6 false Window, 0 39 false Window, 39 0 true Window, 6 4 false Maze, 6 4 true Maze, 4 8 false Maze, 6 6 false Maze, 2 18 true Maze }
search! { "t" "p19", goals true; 3 3 false Walls, 3 3 true Walls, 3 2 true Walls, 2 2 false OneWay, 2 2 true OneWay }
search! { "t" "p19", goals false; 4 1 true Walls, 3 2 false Walls }

/// over other position types
fn other_by<P: Place, const X: u16, const Y: u16, const D: bool>(sub: Sub<P, X, Y>, run: impl FnOnce(&dyn Fn(P, Dir) -> Option<P>, &P, &dyn Fn(P) -> bool) -> Result<(P, Vec<Dir>), Error>) {
    let prob = blocked::<X, Y>();
    let (orig, dest) = ends::<X, Y>(true);
    let (o, t) = (sub.of(&orig), sub.of(&dest));
    let got = run(&|p, d| sub.go(&prob, p, d), &o, &|p| p == t);
    judge::<X, Y, D>(&prob, &orig, 1 << idx(&dest), got.map(|(p, path)| (sub.pos(&p), path)))
}
fn other<P: Place, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(sub: Sub<P, X, Y>) {
    if v::conc(v::any(1)) == 1 {
        other_by::<P, X, Y, D>(sub, |go, o, found| bf::search_path_hash::<_, _, P, D, W, S>(go, o, found))
    } else {
        other_by::<P, X, Y, D>(sub, |go, o, found| bf::search_path_btree::<_, _, P, D, W, S>(go, o, found))
    }
}
fn grids<P: Place, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(sub: Sub<P, X, Y>) {
    if v::conc(v::any(1)) == 1 {
        return other::<P, X, Y, D, W, S>(sub);
    }
    other_by::<P, X, Y, D>(sub, |go, o, found| bf::search_path_grid::<_, _, P, D, W, S>(go, o, found))
}
others! { "p19", other grids; u8 i8 i32 u64 }
