//! Search problems in grids of hundreds of cells (no assertions in here); one path
//! for each choice of blocked cells and ends.
use crate::s::{dir_no, idx, nth, target};
use crate::v;
use sqrid::*;

pub struct Big<const X: u16, const Y: u16> {
    pub wall: Vec<bool>,
    pub diag: bool,
    pub orig: usize,
    pub dest: usize,
    /// what moves cost
    pub kind: u64,
}
pub const FAR: u64 = u64::MAX;
impl<const X: u16, const Y: u16> Big<X, Y> {
    const N: usize = (X as usize + 1) * (Y as usize + 1);
    /// no walls, a winding way or a wall with a gap; one cell of six is the other way round
    pub fn any(diag: bool) -> Self {
        let (w, h) = (X as usize + 1, Y as usize + 1);
        let n = Self::N;
        let mut wall = vec![false; n];
        if n > 2000 {
            // more positions than an 8-bit or 16-bit number counts, and layers of many positions
            let orig = [0, n / 2 + w / 2][v::conc(v::below(2)) as usize];
            return Big { wall, diag, orig, dest: n - 1 - w / 3, kind: 0 };
        }
        let shape = if w > 2 && h > 2 { v::conc(v::below(3)) } else { 0 };
        for i in 0..n {
            let (x, y) = (i % w, i / w);
            wall[i] = match shape {
                0 => false,
                1 => y % 2 == 1 && x != (if y % 4 == 1 { w - 1 } else { 0 }),
                _ => x == w / 2 && y != h - 1,
            };
        }
        let t = [n, n / 2, n / 3, w - 1 + w, n - w / 2 - 1, n / 2 + w / 2][v::conc(v::below(6)) as usize];
        if t < n {
            wall[t] = !wall[t];
        }
        let (orig, dest) = [(0, n - 1), (0, n - w), (n - 1, 0), (n / 2 + 1, w - 1)][v::conc(v::below(4)) as usize];
        Big { wall, diag, orig, dest, kind: 0 }
    }
    pub fn ends(&self) -> (Pos<X, Y>, Pos<X, Y>) {
        (nth(self.orig), nth(self.dest))
    }
    fn to(&self, i: usize, d: usize) -> Option<usize> {
        target::<X, Y>(i, d).filter(|t| !self.wall[*t])
    }
    pub fn go(&self, p: Pos<X, Y>, d: Dir) -> Option<Pos<X, Y>> {
        self.to(idx(&p), dir_no(d)).map(nth)
    }
    pub fn gocost(&self, p: Pos<X, Y>, d: Dir) -> Option<(Pos<X, Y>, usize)> {
        let (i, d) = (idx(&p), dir_no(d));
        self.to(i, d).map(|t| (nth(t), self.cost(i, d) as usize))
    }
    fn cost(&self, i: usize, d: usize) -> u64 {
        match self.kind {
            0 => 1,
            1 => (i as u64 * 37 + d as u64 * 5) % 7,
            2 => (1 << 50) + (i as u64 * 37 + d as u64) % 11,
            _ => 1 + if d == 0 || d == 6 { 9 } else { i as u64 % 3 },
        }
    }
    /// the total after a move from a cell with the total `sum`
    pub fn total_of(&self, i: usize, d: usize, sum: u64) -> u64 {
        if sum != FAR && self.to(i, d).is_some() && (self.diag || d % 2 == 0) {
            sum + self.cost(i, d)
        } else {
            FAR
        }
    }
    /// the total cost of the path, if it leads from the origin to the destination
    pub fn total(&self, path: &[Dir]) -> u64 {
        let (mut i, mut sum) = (self.orig, 0);
        for d in path {
            let d = dir_no(*d);
            match self.to(i, d) {
                Some(t) if self.diag || d % 2 == 0 => {
                    sum += self.cost(i, d);
                    i = t;
                }
                _ => return FAR,
            }
        }
        if i == self.dest {
            sum
        } else {
            FAR
        }
    }
    /// the least total from the origin to each cell
    pub fn least(&self) -> Vec<u64> {
        let mut dist = vec![FAR; Self::N];
        dist[self.orig] = 0;
        if Self::N > 2000 {
            // the nearest first, as below would take long
            let mut queue = std::collections::BTreeSet::from([(0, self.orig)]);
            while let Some((sum, i)) = queue.pop_first() {
                for d in 0..8 {
                    let c = self.total_of(i, d, sum);
                    if c != FAR {
                        let t = target::<X, Y>(i, d).unwrap();
                        if c < dist[t] {
                            queue.remove(&(dist[t], t));
                            dist[t] = c;
                            queue.insert((c, t));
                        }
                    }
                }
            }
            return dist;
        }
        let mut now = vec![self.orig];
        while !now.is_empty() {
            let mut next = vec![];
            let mut queued = vec![false; Self::N];
            for i in now {
                for d in 0..8 {
                    if self.diag || d % 2 == 0 {
                        if let Some(t) = self.to(i, d) {
                            let c = dist[i] + self.cost(i, d);
                            if c < dist[t] {
                                dist[t] = c;
                                if !queued[t] {
                                    queued[t] = true;
                                    next.push(t);
                                }
                            }
                        }
                    }
                }
            }
            now = next;
        }
        dist
    }
    /// `got` is a best path, or there is none
    pub fn best(&self, got: &Result<Vec<Dir>, Error>) -> bool {
        let least = self.least()[self.dest];
        match got {
            Ok(p) => least != FAR && self.total(p) == least,
            Err(e) => least == FAR && *e == Error::DestinationUnreachable,
        }
    }
}

/// `big! { "h" "p19", f; 22 22 false, ... }`: f::<X, Y, D, WORDS, SIZE>(), one harness each
#[macro_export]
macro_rules! big {
    ($t:literal $p:literal, $f:ident; $($x:literal $y:literal $d:literal),* $(,)?) => {
        $(const _: () = {
            #[export_name = concat!($t, "_", $p, "_", stringify!($f), "_", $x, "x", $y, "_", $d)]
            pub extern "C" fn f() {
                fn g<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(_: Sqrid<X, Y, D, W, S>) {
                    $f::<X, Y, D, W, S>()
                }
                g(<sqrid::sqrid_create!($x, $y, $d)>::default())
            }
        };)*
    };
}
