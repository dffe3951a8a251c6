//! Search problems (no assertions in here): which moves are permitted, and
//! what follows from it, as bit sets of cells, independently of sqrid.
use crate::v;
use sqrid::*;

/// bit i of open[d]: the move in direction `Dir::ALL8[d]` is permitted from cell i
#[derive(Clone, Copy)]
pub struct Prob<const X: u16, const Y: u16> {
    pub open: [u64; 8],
    /// blocked cells
    pub wall: u64,
    /// cells that may or may not be blocked
    pub any: u64,
}
pub const VEC: [(i32, i32); 8] = [(0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1)];

pub fn nth<const X: u16, const Y: u16>(i: usize) -> Pos<X, Y> {
    let w = X as usize + 1;
    match Pos::<X, Y>::new((i % w) as u16, (i / w) as u16) {
        Ok(p) => p,
        Err(_) => {
            v::assert(false, 9998);
            panic!()
        }
    }
}
/// any position, one path each
pub fn any_pos<const X: u16, const Y: u16>() -> Pos<X, Y> {
    let n = (X as u64 + 1) * (Y as u64 + 1);
    nth(v::conc(v::below(n)) as usize)
}
pub fn idx<const X: u16, const Y: u16>(p: &Pos<X, Y>) -> usize {
    let t = p.inner_tuple();
    t.1 as usize * (X as usize + 1) + t.0 as usize
}
pub fn dir_no(d: Dir) -> usize {
    match d {
        Dir::N => 0,
        Dir::NE => 1,
        Dir::E => 2,
        Dir::SE => 3,
        Dir::S => 4,
        Dir::SW => 5,
        Dir::W => 6,
        Dir::NW => 7,
    }
}
/// index of the cell in direction d of cell i
pub fn target<const X: u16, const Y: u16>(i: usize, d: usize) -> Option<usize> {
    let (w, h) = (X as i32 + 1, Y as i32 + 1);
    let (x, y) = (i as i32 % w + VEC[d].0, i as i32 / w + VEC[d].1);
    if x < 0 || y < 0 || x >= w || y >= h {
        None
    } else {
        Some((y * w + x) as usize)
    }
}

impl<const X: u16, const Y: u16> Prob<X, Y> {
    pub const N: usize = (X as usize + 1) * (Y as usize + 1);
    pub const ALL: u64 = u64::MAX >> (64 - Self::N);
    /// no restriction
    pub fn free() -> Self {
        Prob { open: Self::FREE, wall: 0, any: 0 }
    }
    /// no move into a cell of `wall`
    pub fn walls(wall: u64, any: u64) -> Self {
        let mut p = Self::free();
        p.wall = wall;
        p.any = any;
        for d in 0..8 {
            p.open[d] &= Self::shift(!wall & Self::ALL, (d + 4) % 8);
        }
        p
    }
    /// cells of `s` moved in direction d (those that would leave disappear)
    pub fn shift(s: u64, d: usize) -> u64 {
        let w = X as i32 + 1;
        let f = Self::FREE[d];
        let o = VEC[d].0 + VEC[d].1 * w;
        let s = s & f;
        if o >= 0 {
            s << o
        } else {
            s >> -o
        }
    }
    const FREE: [u64; 8] = {
        let mut m = [0; 8];
        let (w, h) = (X as i32 + 1, Y as i32 + 1);
        let mut d = 0;
        while d < 8 {
            let mut i = 0;
            while i < Self::N {
                let (x, y) = (i as i32 % w + VEC[d].0, i as i32 / w + VEC[d].1);
                if x >= 0 && y >= 0 && x < w && y < h {
                    m[d] |= 1 << i;
                }
                i += 1;
            }
            d += 1;
        }
        m
    };
    /// any set of moves out of the cells of `window` is forbidden
    pub fn one_way(window: u64, diag: bool) -> Self {
        let mut p = Self::free();
        for d in 0..8 {
            if diag || d % 2 == 0 {
                p.open[d] &= !window | v::any(Self::N as u32);
            }
        }
        p
    }
    #[inline(always)]
    pub fn may(&self, i: usize, d: usize) -> bool {
        self.open[d] >> i & 1 == 1
    }
    pub fn go(&self, p: Pos<X, Y>, d: Dir) -> Option<Pos<X, Y>> {
        let (i, d) = (idx(&p), dir_no(d));
        let t = target::<X, Y>(i, d)?;
        if self.may(i, d) {
            // a call here keeps the compiler from turning this into a selection
            Some(nth(v::conc(t as u64) as usize))
        } else {
            None
        }
    }
    /// the cells one move away from those of `s`
    pub fn step(&self, s: u64, diag: bool) -> u64 {
        let mut n = 0;
        for d in 0..8 {
            if diag || d % 2 == 0 {
                n |= Self::shift(s & self.open[d], d);
            }
        }
        n
    }
    /// where the path leads from `p`, if all its moves are permitted
    pub fn follow(&self, p: &Pos<X, Y>, path: &[Dir], diag: bool) -> (bool, usize) {
        let mut i = idx(p);
        let mut ok = true;
        for d in path {
            let d = dir_no(*d);
            ok &= diag || d % 2 == 0;
            match target::<X, Y>(i, d) {
                Some(t) => {
                    ok &= self.may(i, d);
                    i = t;
                }
                None => return (false, i),
            }
        }
        (ok, i)
    }
    /// the cells that `n` moves from cell `o` lead to, or fewer
    pub fn within(&self, o: usize, n: usize, diag: bool) -> u64 {
        let mut cur = 1u64 << o;
        for _ in 0..n {
            cur |= self.step(cur, diag);
        }
        cur
    }
    /// is `n` the fewest moves from `o` to one of `goals`, given that there is such a way?
    pub fn fewest(&self, o: usize, goals: u64, diag: bool, n: usize) -> bool {
        n == 0 || self.within(o, n - 1, diag) & goals == 0
    }
    /// is there no way?
    pub fn none(&self, o: usize, goals: u64, diag: bool) -> bool {
        self.within(o, Self::N - 1, diag) & goals == 0
    }
}

/// what kinds of problems there are
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Free,
    /// any cells blocked
    Walls,
    /// any moves forbidden
    OneWay,
    /// any of the six cells from 28 on blocked
    Window,
    /// a winding way, with up to six holes in its walls or in itself
    Maze,
}
pub fn problem<const X: u16, const Y: u16>(k: Kind, diag: bool) -> Prob<X, Y> {
    let n = Prob::<X, Y>::N as u32;
    match k {
        Kind::Free => Prob::free(),
        Kind::Walls => Prob::walls(v::any(n), u64::MAX >> (64 - n)),
        Kind::OneWay => Prob::one_way(u64::MAX, diag),
        Kind::Window => Prob::walls(v::any(6) << 28, 63 << 28),
        Kind::Maze => {
            let (w, h) = (X as usize + 1, Y as usize + 1);
            let mut wall = 0u64;
            for y in 0..h {
                for x in 0..w {
                    if y % 2 == 1 && x != (if y % 4 == 1 { w - 1 } else { 0 }) {
                        wall |= 1 << (y * w + x);
                    }
                }
            }
            // six cells, some of each sort
            let (mut at, mut any) = (1, 0);
            for _ in 0..6 {
                any |= 1 << (at % (w * h));
                wall ^= v::any(1) << (at % (w * h));
                at += w + 2;
            }
            Prob::walls(wall, any)
        }
    }
}
/// `search! { "h" "p19", f; 3 4 false Walls, ... }`:
/// f::<X, Y, D, WORDS, SIZE>(kind, pairs), one harness each; `pairs` for a few origins and destinations only
#[macro_export]
macro_rules! search {
    ($t:literal $p:literal, $f:ident $few:literal; $($x:literal $y:literal $d:literal $k:ident),* $(,)?) => {
        $(const _: () = {
            #[export_name = concat!($t, "_", $p, "_", stringify!($f), "_", stringify!($k), "_", $x, "x", $y, "_", $d, "_", $few)]
            pub extern "C" fn f() {
                fn g<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(_: Sqrid<X, Y, D, W, S>) {
                    $f::<X, Y, D, W, S>($crate::s::Kind::$k, $few)
                }
                g(<sqrid::sqrid_create!($x, $y, $d)>::default())
            }
        };)*
    };
}
/// origin and destination: all pairs, or a few
pub fn ends<const X: u16, const Y: u16>(few: bool) -> (Pos<X, Y>, Pos<X, Y>) {
    let n = (X as usize + 1) * (Y as usize + 1);
    if few {
        let (o, d) = [(0, n - 1), (n - 1, 0), (n / 2, X as usize), (X as usize, n - 1 - X as usize), (0, n - 1 - X as usize)][v::conc(v::below(if n > 20 { 5 } else { 4 })) as usize];
        (nth(o), nth(d))
    } else {
        (any_pos(), any_pos())
    }
}

/// what each move costs: `of[d * 64 + i]`, move in direction d from cell i
pub struct Costs<const X: u16, const Y: u16> {
    pub of: [u64; 512],
    /// cells that someone asked for the way into
    pub seen: std::cell::Cell<u64>,
}
impl<const X: u16, const Y: u16> Costs<X, Y> {
    /// any cost of `bits` bits for each move within the grid
    pub fn any(bits: u32, diag: bool) -> Self {
        let mut c = Costs { of: [0; 512], seen: Default::default() };
        for d in 0..8 {
            for i in 0..Prob::<X, Y>::N {
                if (diag || d % 2 == 0) && target::<X, Y>(i, d).is_some() {
                    c.of[d * 64 + i] = v::any(bits);
                }
            }
        }
        c
    }
    /// multiples of 2^8, 2^16 or 2^32
    pub fn scaled(bits: u32, diag: bool) -> Self {
        let mut c = Self::any(bits, diag);
        let k = [8, 16, 32][v::conc(v::below(3)) as usize];
        for i in 0..512 {
            c.of[i] <<= k;
        }
        c
    }
    /// one of a few landscapes: moving up costs more than moving down,
    /// roads and swamps, free rides, costs close to the largest
    pub fn terrain(kind: u64) -> Self {
        let mut c = Costs { of: [0; 512], seen: Default::default() };
        for d in 0..8 {
            for i in 0..Prob::<X, Y>::N {
                if let Some(t) = target::<X, Y>(i, d) {
                    let (hi, ht) = (i as u64 * 37 % 11, t as u64 * 37 % 11);
                    c.of[d * 64 + i] = match kind {
                        0 => 1,
                        1 => ht * 3 + 1,
                        2 => 1 + if ht > hi { (ht - hi) * 4 } else { 0 },
                        3 => (i as u64 + d as u64 * 5) % 7,
                        4 => (1 << 62) + ht,
                        _ => (ht & 1) * (1 << 57),
                    };
                }
            }
        }
        c
    }
    pub fn go(&self, prob: &Prob<X, Y>, p: Pos<X, Y>, d: Dir) -> Option<(Pos<X, Y>, usize)> {
        let c = self.of[dir_no(d) * 64 + idx(&p)] as usize;
        if let Some(t) = target::<X, Y>(idx(&p), dir_no(d)) {
            self.seen.set(self.seen.get() | 1 << t);
        }
        prob.go(p, d).map(|q| (q, c))
    }
    pub fn total(&self, p: &Pos<X, Y>, path: &[Dir]) -> u64 {
        let (mut i, mut sum) = (idx(p), 0u64);
        for d in path {
            let d = dir_no(*d);
            sum = sum.saturating_add(self.of[d * 64 + i]);
            match target::<X, Y>(i, d) {
                Some(t) => i = t,
                None => return u64::MAX,
            }
        }
        sum
    }
    /// the least total of any way from cell `o` to cell `g` (u64::MAX: as much, more, or none), costs and moves being known
    pub fn least(&self, prob: &Prob<X, Y>, o: usize, g: usize, diag: bool) -> u64 {
        let mut dist = [u64::MAX; 64];
        dist[o] = 0;
        loop {
            let mut changed = false;
            for i in 0..Prob::<X, Y>::N {
                for d in 0..8 {
                    if diag || d % 2 == 0 {
                        if let Some(t) = target::<X, Y>(i, d) {
                            if prob.may(i, d) && dist[i].saturating_add(self.of[d * 64 + i]) < dist[t] {
                                dist[t] = dist[i].saturating_add(self.of[d * 64 + i]);
                                changed = true;
                            }
                        }
                    }
                }
            }
            if !changed {
                return dist[g];
            }
        }
    }
    /// f(is it permitted?, its total) of each way from `at` to `g` that enters no cell twice nor one of `seen`
    pub fn ways(&self, prob: &Prob<X, Y>, at: usize, g: usize, seen: u64, diag: bool, open: bool, sum: u64, f: &dyn Fn(bool, u64)) {
        if at == g {
            return f(open, sum);
        }
        for d in 0..8 {
            if diag || d % 2 == 0 {
                if let Some(t) = target::<X, Y>(at, d) {
                    if seen >> t & 1 == 0 {
                        self.ways(prob, t, g, seen | 1 << at, diag, open & prob.may(at, d), sum.saturating_add(self.of[d * 64 + at]), f);
                    }
                }
            }
        }
    }
}
