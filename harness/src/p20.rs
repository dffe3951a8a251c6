//! Any origin and destination, with any moves forbidden in grids with maxima (0,0) (1,0) (0,1) (4,0) (0,4) (1,1) and,
//! without diagonals, (2,1) (1,2); with any cells blocked in (3,1), without diagonals in (2,2), with in (1,3);
//! none blocked in grids of 40 to 63 cells; four pairs of ends in (2,2) with diagonals, (4,1) (1,4) with any cells blocked,
//! in larger grids with any of six cells around the 32nd blocked and in a winding way with any of six cells changed;
//! three shapes of walls, six variations and four pairs of ends in grids of 289 to 529 cells and two origins without walls in 2624 and 7936 cells (thorough: 66000);
//! thorough: any ends in (2,2) (4,1) (1,4); four pairs of ends in (3,3) (3,2) (4,3) with blocked cells and
//! (2,2) with forbidden moves.
//! Sizes that are multiples of 32 cells as sqrid_create! chooses: 32 cells (free) and 64 cells (a winding way).
//! Positions of other types: a window of 3x2 cells, any of them blocked, at four places of the range of pairs of u8, i8, i32, u64 (hash and tree kinds), and
//! two user-defined types of 12 and 15 cells, any of four cells blocked (all kinds); four pairs of ends.
use crate::b::Big;
use crate::o::*;
use crate::s::*;
use crate::{u, v};
use sqrid::*;

fn path<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(kind: Kind, few: bool) {
    let prob = problem::<X, Y>(kind, D);
    let (orig, dest) = ends(few);
    let got = Sqrid::<X, Y, D, W, S>::astar_path(|p, d| prob.go(p, d), &orig, &dest);
    judge::<X, Y, D>(&prob, orig, dest, got)
}
fn judge<const X: u16, const Y: u16, const D: bool>(prob: &Prob<X, Y>, orig: Pos<X, Y>, dest: Pos<X, Y>, got: Result<Vec<Dir>, Error>) {
    match got {
        Ok(path) => {
            let (ok, end) = prob.follow(&orig, &path, D);
            check!(ok);
            check!(end == idx(&dest));
            check!(prob.fewest(idx(&orig), 1 << idx(&dest), D, path.len()));
        }
        Err(e) => {
            check!(prob.none(idx(&orig), 1 << idx(&dest), D));
            check!(e == Error::DestinationUnreachable);
        }
    }
}
/// in grids of hundreds of cells
fn big<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>() {
    let b = Big::<X, Y>::any(D);
    let (orig, dest) = b.ends();
    check!(b.best(&Sqrid::<X, Y, D, W, S>::astar_path(|p, d| b.go(p, d), &orig, &dest)));
}
big! { "h" "p20", big; 299 0 false, 0 299 true, 22 22 false, 16 17 true }
big! { "h" "p20", big; 255 30 false, 40 63 true }
big! { "t" "p20", big; 299 219 false }
search! { "h" "p20", path false; 0 0 false OneWay, 1 0 true OneWay, 0 1 false OneWay, 4 0 false OneWay, 0 4 false OneWay, 1 1 false OneWay, 1 1 true OneWay, 2 1 false OneWay, 1 2 false OneWay }
search! { "h" "p20", path false; 2 2 false Walls, 3 1 true Walls, 1 3 true Walls, 3 1 false Walls }
search! { "h" "p20", path true; 2 2 true Walls, 1 4 true Walls, 4 1 true Walls, 4 1 false Walls, 1 4 false Walls }
search! { "h" "p20", path false; 8 6 false Free, 8 6 true Free, 5 7 true Free, 39 0 false Free, 0 39 false Free }
search! { "h" "p20", path true; 7 3 true Free, 7 7 false Maze, 5 5 true Window, 8 6 false Window, 0 39 false Window, 39 0 true Window, 6 4 false Maze, 6 4 true Maze, 4 8 false Maze, 6 6 false Maze, 2 18 true Maze }
search! { "t" "p20", path false; 2 2 true Walls, 1 4 true Walls, 4 1 true Walls, 4 1 false Walls, 1 4 false Walls }
search! { "t" "p20", path true; 3 3 false Walls, 3 3 true Walls, 3 2 true Walls, 4 3 false Walls, 2 2 false OneWay, 2 2 true OneWay }

/// over other position types
fn other_by<P: Place, const X: u16, const Y: u16, const D: bool>(sub: Sub<P, X, Y>, run: impl FnOnce(&dyn Fn(P, Dir) -> Option<P>, &P, &P) -> Result<Vec<Dir>, Error>) {
    let prob = blocked::<X, Y>();
    let (orig, dest) = ends::<X, Y>(true);
    let got = run(&|p, d| sub.go(&prob, p, d), &sub.of(&orig), &sub.of(&dest));
    judge::<X, Y, D>(&prob, orig, dest, got)
}
fn other<P: Place, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(sub: Sub<P, X, Y>) {
    if v::conc(v::any(1)) == 1 {
        other_by::<P, X, Y, D>(sub, |go, o, t| astar::search_path_hash::<_, P, D, W, S>(go, o, t))
    } else {
        other_by::<P, X, Y, D>(sub, |go, o, t| astar::search_path_btree::<_, P, D, W, S>(go, o, t))
    }
}
fn grids<P: Place, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(sub: Sub<P, X, Y>) {
    if v::conc(v::any(1)) == 1 {
        return other::<P, X, Y, D, W, S>(sub);
    }
    other_by::<P, X, Y, D>(sub, |go, o, t| astar::search_path_grid::<_, P, D, W, S>(go, o, t))
}
others! { "p20", other grids; u8 i8 i32 u64 }
