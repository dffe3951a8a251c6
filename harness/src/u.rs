//! Shared helpers (no assertions in here).
use crate::v;
use sqrid::*;

/// any position of the grid
#[inline(always)]
pub fn pos<const X: u16, const Y: u16>() -> Pos<X, Y> {
    let (x, y) = (v::any(16) as u16, v::any(16) as u16);
    v::assume(x <= X && y <= Y);
    match Pos::<X, Y>::new(x, y) {
        Ok(p) => p,
        Err(_) => {
            v::assert(false, 9999);
            panic!()
        }
    }
}
/// any direction
#[inline(always)]
pub fn dir() -> Dir {
    let i = v::any(3) as usize;
    Dir::ALL8[i]
}
/// unit vector of a direction, independently of the implementation
#[inline(always)]
pub fn vec_of(d: Dir) -> (i64, i64) {
    match d {
        Dir::N => (0, -1),
        Dir::NE => (1, -1),
        Dir::E => (1, 0),
        Dir::SE => (1, 1),
        Dir::S => (0, 1),
        Dir::SW => (-1, 1),
        Dir::W => (-1, 0),
        Dir::NW => (-1, -1),
    }
}
#[inline(always)]
pub fn absdiff(a: u16, b: u16) -> usize {
    if a > b {
        (a - b) as usize
    } else {
        (b - a) as usize
    }
}

/// position types as a user may define them
macro_rules! own {
    ($name:ident, $x:ty, $y:ty, $w:expr, $h:expr; $($acc:tt)*) => {
        #[derive(Debug, Default, PartialEq, Eq, PartialOrd, Ord, Clone, Copy, Hash)]
        pub struct $name(pub $x, pub $y);
        impl PosT for $name {
            type Xtype = $x;
            type Ytype = $y;
            const WIDTH: usize = $w;
            const HEIGHT: usize = $h;
            fn new_(xy: ($x, $y)) -> Self {
                $name(xy.0, xy.1)
            }
            $($acc)*
        }
    };
}
pub type X1 = BoundedU8<0, 2>;
pub type Y1 = BoundedI32<0, 3>;
own! { Own1, X1, Y1, 3, 4; fn tuple(&self) -> (X1, Y1) { (self.0, self.1) } }
pub type X2 = BoundedI64<0, 4>;
pub type Y2 = BoundedU128<0, 2>;
own! { Own2, X2, Y2, 5, 3; fn x(&self) -> X2 { self.0 } fn y(&self) -> Y2 { self.1 } }

/// Whether an iterator that is to yield at(0)..at(n) does, whichever of Iterator's methods is used
/// after any number of items was taken one by one.
#[inline(always)]
pub fn ways<I: Iterator>(mut it: I, n: usize, at: impl Fn(usize) -> I::Item) -> bool
where
    I::Item: PartialEq,
{
    let k = v::conc(v::below(n as u64 + 2)) as usize;
    for _ in 0..k {
        it.next();
    }
    let k = k.min(n);
    match v::conc(v::below(5)) {
        0 => it.count() == n - k,
        1 => it.last() == if k < n { Some(at(n - 1)) } else { None },
        2 => {
            let j = v::conc(v::below((n - k + 2) as u64)) as usize;
            let a = it.nth(j) == if k + j < n { Some(at(k + j)) } else { None };
            a && it.next() == if k + j + 1 < n { Some(at(k + j + 1)) } else { None }
        }
        3 => {
            let (mut i, mut ok) = (k, true);
            it.for_each(|x| {
                ok = ok && i < n && x == at(i);
                i += 1;
            });
            ok && i == n
        }
        _ => {
            let j = v::conc(v::below(n as u64)) as usize;
            let x = at(j);
            it.position(|y| y == x) == if j >= k { Some(j - k) } else { None }
        }
    }
}
/// The same for methods that also take from the back.
#[inline(always)]
pub fn ways2<I: DoubleEndedIterator>(mut it: I, n: usize, at: impl Fn(usize) -> I::Item) -> bool
where
    I::Item: PartialEq,
{
    let b = v::conc(v::below(n as u64 + 2)) as usize;
    for _ in 0..b {
        it.next_back();
    }
    let n = n - b.min(n);
    if n > 0 && v::conc(v::any(1)) == 0 {
        return ways(it, n, at);
    }
    let k = v::conc(v::below(n as u64 + 1)) as usize;
    for _ in 0..k {
        it.next();
    }
    if v::conc(v::any(1)) == 0 {
        let j = v::conc(v::below((n - k + 2) as u64)) as usize;
        let a = it.nth_back(j) == if k + j < n { Some(at(n - 1 - j)) } else { None };
        a && it.next_back() == if k + j + 1 < n { Some(at(n - 2 - j)) } else { None }
    } else {
        let (mut i, mut ok) = (n, true);
        it.rev().for_each(|x| {
            ok = ok && i > k && x == at(i - 1);
            i -= 1;
        });
        ok && i == k
    }
}

/// an iterator that does not tell how many items are left
pub struct Loose<I>(pub I);
impl<I: Iterator> Iterator for Loose<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, None)
    }
}
