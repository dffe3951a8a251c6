//! Every map (each cell one of the 8 directions or none, any origin and destination) of grids with maxima
//! (0,0) (1,0) (0,1) (3,0) (0,3) (1,1) (2,1) (1,2), the four cardinal directions in (2,2) (thorough: all in
//! (2,2), (4,1) and (1,4), cardinal ones in (3,2)); maps along a winding way through all cells of grids of up to 80
//! cells, forward or backward, any origin and destination on it, with any entry at one cell of it;
//! straight ways and winding ones through all cells in grids of 380, 1200 and 65792 cells, to the origin, short of it and in circles;
//! the same through Grid, hash and tree maps, both entry points, and tuples as positions.
use crate::u::{Own1, Own2};
use crate::{u, v};
use sqrid::*;
use std::collections::{BTreeMap, HashMap};

fn delta(d: Dir) -> (i64, i64) {
    u::vec_of(d)
}
fn rev(d: Dir) -> Dir {
    use Dir::*;
    match d {
        N => S,
        NE => SW,
        E => W,
        SE => NW,
        S => N,
        SW => NE,
        W => E,
        NW => SE,
    }
}
/// what following `at` from `dest` leads to: the path reversed
fn want(w: i64, h: i64, at: &dyn Fn(i64, i64) -> Option<Dir>, orig: (i64, i64), dest: (i64, i64)) -> Result<Vec<Dir>, Error> {
    if at(dest.0, dest.1).is_none() {
        return Err(Error::DestinationUnreachable);
    }
    let mut seen = vec![false; (w * h) as usize];
    let mut path = vec![];
    let (mut x, mut y) = dest;
    while (x, y) != orig {
        let i = (y * w + x) as usize;
        if seen[i] {
            return Err(Error::Loop);
        }
        seen[i] = true;
        let Some(d) = at(x, y) else { return Err(Error::InvalidMovement) };
        path.push(rev(d));
        let v = delta(d);
        x += v.0;
        y += v.1;
        if x < 0 || y < 0 || x >= w || y >= h {
            return Err(Error::InvalidMovement);
        }
    }
    Ok(path)
}
fn same(got: &Result<Vec<Dir>, Error>, want: &Result<Vec<Dir>, Error>) -> bool {
    match (got, want) {
        (Ok(a), Ok(b)) => {
            let n = b.len();
            if a.len() != n {
                return false;
            }
            let mut ok = true;
            for i in 0..n {
                ok &= a[i] == b[n - 1 - i];
            }
            ok
        }
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}
fn nth<P: PosT>(i: usize) -> P {
    match P::tryfrom_usize(i) {
        Ok(p) => p,
        Err(_) => {
            check!(false);
            panic!()
        }
    }
}
fn any_entry(full: bool) -> Option<Dir> {
    use Dir::*;
    if full {
        [None, Some(N), Some(NE), Some(E), Some(SE), Some(S), Some(SW), Some(W), Some(NW)][v::below(9) as usize]
    } else {
        [None, Some(N), Some(E), Some(S), Some(W)][v::below(5) as usize]
    }
}
/// one path for each outcome of an entry
fn fix(e: Option<Dir>) -> Option<Dir> {
    let n = match e {
        None => 8,
        Some(d) => d as u64,
    };
    match v::conc(n) {
        8 => None,
        i => Some(Dir::ALL8[i as usize]),
    }
}
fn all_of<P, const S: usize, const FULL: bool>(w: i64, h: i64)
where
    P: PosT + std::ops::Add<Dir, Output = Result<P, Error>>,
{
    v::covers(if S > 2 { 4 } else { 2 });
    let mut m = Grid::<Option<Dir>, P, S>::repeat(None);
    let mut e = [None; S];
    for i in 0..S {
        e[i] = any_entry(FULL);
        m.as_array_mut()[i] = e[i];
    }
    let (o, d) = (v::conc(v::below(S as u64)) as usize, v::conc(v::below(S as u64)) as usize);
    let got = camefrom_into_path::<_, P, 1, S>(m, &nth(o), &nth(d));
    let (o, d) = (o as i64, d as i64);
    let want = want(w, h, &|x, y| fix(e[(y * w + x) as usize]), (o % w, o / w), (d % w, d / w));
    v::cover(match want {
        Ok(_) => 0,
        Err(Error::DestinationUnreachable) => 1,
        Err(Error::InvalidMovement) => 2,
        _ => 3,
    });
    check!(same(&got, &want));
}
fn all8<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    all_of::<Pos<X, Y>, S, true>(X as i64 + 1, Y as i64 + 1)
}
fn all4<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    all_of::<Pos<X, Y>, S, false>(X as i64 + 1, Y as i64 + 1)
}
/// a way through all cells
fn winding<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    winding_of::<X, Y, S, W>(v::conc(v::below(2)) as u64)
}
fn winding_others<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    winding_of::<X, Y, S, W>(2 + v::conc(v::below(2)) as u64)
}
fn winding_of<const X: u16, const Y: u16, const S: usize, const W: usize>(kind: u64) {
    let (w, h) = (X as i64 + 1, Y as i64 + 1);
    // the k-th cell of it
    let by_rows = w > 1 && (h == 1 || v::conc(v::any(1)) == 1);
    let cell = |k: usize| {
        let k = k as i64;
        if by_rows {
            let y = k / w;
            (if y % 2 == 0 { k % w } else { w - 1 - k % w }, y)
        } else {
            let x = k / h;
            (x, if x % 2 == 0 { k % h } else { h - 1 - k % h })
        }
    };
    let toward = |a: (i64, i64), b: (i64, i64)| match (b.0 - a.0, b.1 - a.1) {
        (0, -1) => Dir::N,
        (1, 0) => Dir::E,
        (0, 1) => Dir::S,
        _ => Dir::W,
    };
    let mut e = [None; S];
    for k in 0..S {
        let c = cell(k);
        e[(c.1 * w + c.0) as usize] = if k > 0 { Some(toward(c, cell(k - 1))) } else { None };
    }
    // ends: the whole way, or parts of it
    let ends = v::conc(v::below(4)) as usize;
    let (o, d) = [(0, S - 1), (0, S / 2), (S / 3, S - 1), (S - 1, 0)][ends];
    let (o, d) = (cell(o), cell(d));
    // one entry is another one
    let other = v::conc(v::below(3));
    let k = [0, S / 2, S - 1][other as usize];
    let c = cell(k);
    e[(c.1 * w + c.0) as usize] = any_entry(true);
    let po = nth::<Pos<X, Y>>((o.1 * w + o.0) as usize);
    let pd = nth::<Pos<X, Y>>((d.1 * w + d.0) as usize);
    let got = match kind {
        0 => {
            let mut m = Grid::<Option<Dir>, Pos<X, Y>, S>::repeat(None);
            for i in 0..S {
                m.as_array_mut()[i] = e[i];
            }
            camefrom_into_path::<_, _, W, S>(m, &po, &pd)
        }
        1 => {
            let mut m = Grid::<Option<Dir>, Pos<X, Y>, S>::repeat(None);
            for i in 0..S {
                m.as_array_mut()[i] = e[i];
            }
            Sqrid::<X, Y, true, W, S>::camefrom_into_path(m, &po, &pd)
        }
        2 => {
            let mut m = (HashMap::new(), None);
            for i in 0..S {
                m.0.insert(nth::<Pos<X, Y>>(i), e[i]);
            }
            camefrom_into_path::<_, _, W, S>(m, &po, &pd)
        }
        _ => {
            let mut m = (BTreeMap::new(), None);
            for i in 0..S {
                m.0.insert(nth::<Pos<X, Y>>(i), e[i]);
            }
            Sqrid::<X, Y, false, W, S>::camefrom_into_path(m, &po, &pd)
        }
    };
    let want = want(w, h, &|x, y| fix(e[(y * w + x) as usize]), o, d);
    check!(same(&got, &want));
}
/// positions without a grid around them: three cells in a row somewhere
fn tuple<T: BoundedInt + Copy + Ord>(of: impl Fn(u64) -> T)
where
    (T, T): PosT + std::ops::Add<Dir, Output = Result<(T, T), Error>>,
{
    let mut m = (BTreeMap::new(), None);
    let mut e = [None; 3];
    let y = v::conc(v::below(3));
    let a = 4 * v::conc(v::below(2));
    for i in 0..3 {
        e[i] = [None, Some(Dir::E), Some(Dir::W)][v::below(3) as usize];
        m.0.insert((of(a + i as u64), of(y * 3)), e[i]);
    }
    let (o, d) = (v::conc(v::below(3)), v::conc(v::below(3)));
    // leaving the three cells leads to a position without entry, or out of the type's range
    let want = want(3, 1, &|x, _| fix(e[x as usize]), (o as i64, 0), (d as i64, 0));
    if let Err(Error::Loop) = want {
        // as many steps as the type has positions: not followed here
        v::assume(false);
    }
    let got = camefrom_into_path::<_, (T, T), 0, 0>(m, &(of(a + o), of(y * 3)), &(of(a + d), of(y * 3)));
    check!(same(&got, &want));
}
/// long ways in large grids
fn longer<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    let (w, h) = (X as i64 + 1, Y as i64 + 1);
    let mut m = Grid::<Option<Dir>, Pos<X, Y>, S>::repeat(None);
    let a = m.as_array_mut();
    // first west along a row and north along the first column, or through all cells
    let winds = v::conc(v::any(1)) == 1;
    let mut n = w + h - 2;
    if winds {
        n = w * h - 1;
        for i in 1..w * h {
            let (x, y) = (i % w, i / w);
            let d = if y % 2 == 0 {
                if x == 0 { Dir::N } else { Dir::W }
            } else if x == w - 1 {
                Dir::N
            } else {
                Dir::E
            };
            a[i as usize] = Some(d);
        }
    } else {
        for y in 1..h {
            a[(y * w) as usize] = Some(Dir::N);
        }
        for x in 1..w {
            a[((h - 1) * w + x) as usize] = Some(Dir::W);
        }
    }
    // the origin is at the end of it, or one cell before; or the way leads in a circle or nowhere
    let how = v::conc(v::below(4));
    let last = if winds && h % 2 == 0 { (h - 1) * w } else { w * h - 1 };
    a[0] = [None, None, None, Some(Dir::E)][how as usize];
    if how == 3 && !winds {
        a[1] = Some(Dir::W);
    }
    let o = match how {
        0 => 0,
        1 if h > 1 && !winds => w,
        1 => 1,
        // not on the way
        _ if winds => -1,
        _ if h > 2 => w + 1,
        _ => w - 1,
    };
    let dest = nth::<Pos<X, Y>>(last as usize);
    let orig = if o < 0 { nth(0) } else { nth::<Pos<X, Y>>(o as usize) };
    if o < 0 {
        // a way that ends just before the origin
        m.as_array_mut()[1] = [None, Some(if w > 2 { Dir::E } else { Dir::S })][(how - 2) as usize];
    }
    let got = camefrom_into_path::<_, _, W, S>(m, &orig, &dest);
    match how {
        0 | 1 => {
            let n = n - how as i64;
            let Ok(p) = got else {
                check!(false);
                return;
            };
            check!(p.len() as i64 == n);
            let mut ok = true;
            let mut x = if o == 1 { 1 } else { 0 };
            let mut y = if o == w { 1 } else { 0 };
            for d in p {
                let t = delta(d);
                x += t.0;
                y += t.1;
                // every step stays on the way
                ok &= if winds { t.0 == (if y % 2 == 0 { 1 } else { -1 }) || t == (0, 1) } else { t == (if x == 0 { (0, 1) } else { (1, 0) }) };
            }
            check!(ok && (x, y) == (last % w, last / w));
        }
        2 => check!(matches!(got, Err(Error::InvalidMovement))),
        _ => check!(matches!(got, Err(Error::Loop))),
    }
}
/// far apart
fn far<T: BoundedInt + Copy + Ord>(of: impl Fn(u64) -> T)
where
    (T, T): PosT + std::ops::Add<Dir, Output = Result<(T, T), Error>>,
{
    let mut m = (BTreeMap::new(), None);
    let orig = (of(0), of(3 * v::conc(v::below(3))));
    let dest = (of(6), of(0));
    let mut want = Error::DestinationUnreachable;
    if v::conc(v::any(1)) == 1 {
        m.0.insert(dest, Some([Dir::W, Dir::E][v::conc(v::any(1)) as usize]));
        want = Error::InvalidMovement;
    }
    let got = camefrom_into_path::<_, (T, T), 0, 0>(m, &orig, &dest);
    check!(got == Err(want));
}
macro_rules! tuples {
    ($($n:ident $f:ident: $t:ty;)*) => {
        $(#[no_mangle] pub extern "C" fn $n() { tuple::<$t>(|i| { let m = <$t>::MAX / 2; [0, 1, 2, m - 1, m, m + 1, m + 2][i as usize] }) }
          #[no_mangle] pub extern "C" fn $f() { far::<$t>(|i| [<$t>::MIN, 0, 1, 2, 3, <$t>::MAX / 2, <$t>::MAX][i as usize]) })*
    };
}
tuples! {
    h_p23_tuple_u8 h_p23_far_u8: u8;
    h_p23_tuple_u16 h_p23_far_u16: u16;
    h_p23_tuple_u32 h_p23_far_u32: u32;
    h_p23_tuple_u64 h_p23_far_u64: u64;
    h_p23_tuple_u128 h_p23_far_u128: u128;
    h_p23_tuple_i8 h_p23_far_i8: i8;
    h_p23_tuple_i16 h_p23_far_i16: i16;
    h_p23_tuple_i32 h_p23_far_i32: i32;
}
gdims! { "h" "p23", all8; 0 0, 1 0, 0 1, 3 0, 0 3, 1 1, 2 1, 1 2 }
gdims! { "h" "p23", all4; 2 2 }
gdims! { "t" "p23", all8; 2 2, 4 1, 1 4 }
gdims! { "t" "p23", all4; 3 2 }
gdims! { "h" "p23", winding; 1 1, 33 0, 0 33, 3 2, 6 8, 9 7 }
gdims! { "h" "p23", winding_others; 10 0, 0 10, 5 5 }
gdims! { "t" "p23", winding; 79 0, 0 79, 31 7, 2 40, 15 15 }
gdims! { "t" "p23", winding_others; 33 0, 0 33, 9 7 }
gdims! { "h" "p23", longer; 18 19, 599 1, 1 599, 255 256 }
gdims! { "t" "p23", longer; 255 255, 65535 1 }
