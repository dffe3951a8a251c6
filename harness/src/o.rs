//! Searches over other position types than Pos: tuples of integers, where a window of a few cells
//! lies anywhere, and user-defined types (no assertions in here but that positions can be made).
use crate::s::*;
use crate::u::{Own1, Own2};
use crate::v;
use sqrid::*;
use std::hash::Hash;

/// the cells of a problem as positions of another type
pub struct Sub<P, const X: u16, const Y: u16> {
    pub at: Vec<P>,
}
pub trait Place: PosT + Copy + Ord + Hash + std::ops::Add<Dir, Output = Result<Self, Error>> {}
impl<P> Place for P where P: PosT + Copy + Ord + Hash + std::ops::Add<Dir, Output = Result<P, Error>> {}

impl<P: Place, const X: u16, const Y: u16> Sub<P, X, Y> {
    pub fn cell(&self, p: &P) -> Option<usize> {
        self.at.iter().position(|q| q == p)
    }
    pub fn pos(&self, p: &P) -> Pos<X, Y> {
        match self.cell(p) {
            Some(i) => nth(i),
            None => {
                check!(false);
                panic!()
            }
        }
    }
    pub fn of(&self, p: &Pos<X, Y>) -> P {
        self.at[idx(p)]
    }
    pub fn go(&self, prob: &Prob<X, Y>, p: P, d: Dir) -> Option<P> {
        let i = self.cell(&p)?;
        let to = (p + d).ok()?;
        self.cell(&to)?;
        prob.go(nth(i), d).map(|_| to)
    }
    pub fn gocost(&self, prob: &Prob<X, Y>, cost: &Costs<X, Y>, p: P, d: Dir) -> Option<(P, usize)> {
        let i = self.cell(&p)?;
        let to = (p + d).ok()?;
        self.cell(&to)?;
        cost.go(prob, nth(i), d).map(|(_, c)| (to, c))
    }
}
/// a window somewhere: at the ends of the type's range or around its middle (zero)
pub fn window<T: Copy + Ord + Hash, const X: u16, const Y: u16>(of: impl Fn(u64, i8) -> T) -> Sub<(T, T), X, Y>
where
    (T, T): Place,
{
    let (bx, by) = [(0, 0), (1, 2), (2, 0), (2, 1)][v::conc(v::below(4)) as usize];
    let (w, h) = (X as i8 + 1, Y as i8 + 1);
    let base = |b, n: i8| [0, 1 - n, -1][b as usize];
    let mut at = vec![];
    for y in 0..h {
        for x in 0..w {
            at.push((of(bx, base(bx, w) + x), of(by, base(by, h) + y)));
        }
    }
    Sub { at }
}
pub fn whole<P: Place, const X: u16, const Y: u16>() -> Sub<P, X, Y> {
    Sub {
        at: (0..Prob::<X, Y>::N)
            .map(|i| match P::tryfrom_usize(i) {
                Ok(p) => p,
                Err(_) => {
                    check!(false);
                    panic!()
                }
            })
            .collect(),
    }
}
macro_rules! add {
    ($($t:ident)*) => { $(
        impl std::ops::Add<Dir> for $t {
            type Output = Result<$t, Error>;
            fn add(self, d: Dir) -> Self::Output {
                let (dx, dy) = crate::u::vec_of(d);
                let (x, y) = (self.0.into_inner() as i64 + dx, self.1.into_inner() as i64 + dy);
                if x < 0 || y < 0 || x >= Self::WIDTH as i64 || y >= Self::HEIGHT as i64 {
                    return Err(Error::OutOfBounds);
                }
                Self::tryfrom_usize(x as usize + y as usize * Self::WIDTH)
            }
        }
    )* };
}
add! { Own1 Own2 }

/// `others! { "p19", f; name u8, ... }`: f::<P, X, Y, D, WORDS, SIZE>(sub), and g in place of f for
/// those that grids can hold too
#[macro_export]
macro_rules! others {
    ($p:literal, $f:ident $g:ident; $($t:ident)*) => {
        $(const _: () = {
            #[export_name = concat!("h_", $p, "_", stringify!($f), "_", stringify!($t))]
            pub extern "C" fn f() {
                let of = |b: u64, i: i8| [<$t>::MIN, <$t>::MAX, <$t>::MAX / 2 + <$t>::MIN / 2][b as usize].wrapping_add(i as $t);
                let sub = $crate::o::window::<$t, 2, 1>(of);
                if $crate::v::conc($crate::v::any(1)) == 1 {
                    $f::<($t, $t), 2, 1, true, 0, 0>(sub)
                } else {
                    $f::<($t, $t), 2, 1, false, 0, 0>(sub)
                }
            }
        };)*
        const _: () = {
            #[export_name = concat!("h_", $p, "_", stringify!($f), "_own")]
            pub extern "C" fn f() {
                use $crate::u::{Own1, Own2};
                match $crate::v::conc($crate::v::below(4)) {
                    0 => $g::<Own1, 2, 3, false, 1, 12>($crate::o::whole()),
                    1 => $g::<Own1, 2, 3, true, 1, 12>($crate::o::whole()),
                    2 => $g::<Own2, 4, 2, false, 1, 15>($crate::o::whole()),
                    _ => $g::<Own2, 4, 2, true, 1, 15>($crate::o::whole()),
                }
            }
        };
    };
}
/// which cells are blocked: any of them in small windows, six of them otherwise
pub fn blocked<const X: u16, const Y: u16>() -> Prob<X, Y> {
    if Prob::<X, Y>::N <= 6 {
        problem(Kind::Walls, true)
    } else {
        Prob::walls(v::any(4) << 5, 15 << 5)
    }
}
