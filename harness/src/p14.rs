//! Grids with maxima (0,0) (0,3) (3,0) (1,1) (2,1) (1,2) (2,3): iterators of zero, of the exact number
//! and of up to two fewer or more elements, also endless ones and ones that do not know how many are left, of values and references; sequences of up to
//! three (position, value) pairs; nested vectors of up to one line more than the grid, every line of 0 to
//! one more element than the width; one line of one element too many for widths 256 (thorough: 1024); one element after up to 65537 empty lines.
use crate::u::{Own1, Own2};
use crate::{u, v};
use sqrid::*;

/// not Copy
#[derive(Debug, Default, PartialEq)]
struct Tok(u16);

fn collect_of<P: PosT, const S: usize>() {
    v::covers(3);
    let form = v::conc(v::below(7));
    let n = if v::conc(v::any(1)) == 0 { v::conc(v::below(5)) as usize + S } else { 2 };
    v::assume(n >= 2);
    let n = n - 2;
    let mut c = Vec::with_capacity(n);
    for _ in 0..n {
        c.push(v::any(16) as u16);
    }
    v::expect_panic(n != S);
    v::cover(if n < S { 0 } else if n > S { 1 } else { 2 });
    let g: [u16; S] = match form {
        0 => c.iter().copied().collect::<Grid<u16, P, S>>().into_inner(),
        1 => c.iter().collect::<Grid<u16, P, S>>().into_inner(),
        2 => {
            let g = c.iter().map(|x| Tok(*x)).collect::<Grid<Tok, P, S>>();
            check!(n == S);
            v::expect_panic(false);
            let mut i = 0;
            for x in g {
                check!(x.0 == c[i]);
                i += 1;
            }
            check!(i == S);
            return;
        }
        3 => c.iter().rev().copied().collect::<Grid<u16, P, S>>().into_inner(),
        4 => u::Loose(c.iter().copied()).collect::<Grid<u16, P, S>>().into_inner(),
        5 => u::Loose(c.iter()).collect::<Grid<u16, P, S>>().into_inner(),
        _ => Grid::<u16, P, S>::from_iter(c.clone()).into_inner(),
    };
    check!(n == S);
    v::expect_panic(false);
    for i in 0..S {
        check!(g[i] == if form == 3 { c[S - 1 - i] } else { c[i] });
    }
}
fn collect<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    collect_of::<Pos<X, Y>, S>()
}
fn endless<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    v::expect_panic(true);
    let x = v::any(8) as u8;
    if v::conc(v::any(1)) == 0 {
        let _ = std::iter::repeat(x).collect::<Grid<u8, Pos<X, Y>, S>>();
    } else {
        let _ = std::iter::repeat(&x).collect::<Grid<u8, Pos<X, Y>, S>>();
    }
    check!(false);
}

/// pairs of position and value: the last value of each position stays
fn extend<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    let mut g = Grid::<u16, Pos<X, Y>, S>::default();
    for x in g.iter_mut() {
        *x = v::any(16) as u16;
    }
    let old = g;
    let n = v::conc(v::below(4)) as usize;
    let mut l = [(Pos::<X, Y>::default(), 0u16); 3];
    for i in 0..n {
        l[i] = (u::pos::<X, Y>(), v::any(16) as u16);
    }
    match v::conc(v::below(4)) {
        3 => g.extend(u::Loose(l[..n].iter().copied())),
        0 => g.extend(l[..n].iter().copied()),
        1 => g.extend(l[..n].iter().map(|(p, x)| (*p, x))),
        _ => g.extend(l[..n].iter()),
    }
    let q = u::pos::<X, Y>();
    let mut want = old[q];
    for i in 0..n {
        if l[i].0.tuple() == q.tuple() {
            want = l[i].1;
        }
    }
    check!(g[q] == want);
}

/// nested vectors
fn vecvec_of<P: PosT, const S: usize>(w: usize, h: usize) {
    v::covers(2);
    let n = v::conc(v::below(h as u64 + 2)) as usize;
    let mut vv: Vec<Vec<Tok>> = Vec::new();
    // the values given, by coordinates
    let mut c: Vec<Vec<u16>> = Vec::new();
    let mut outside = false;
    for y in 0..n {
        let m = v::conc(v::below(w as u64 + 2)) as usize;
        let (mut l, mut k) = (Vec::new(), Vec::new());
        for x in 0..m {
            let t = v::any(16) as u16;
            l.push(Tok(t));
            k.push(t);
            outside |= x >= w || y >= h;
        }
        vv.push(l);
        c.push(k);
    }
    let given = |i: usize| c.get(i / w).and_then(|l| l.get(i % w)).copied();
    if v::conc(v::any(1)) == 0 {
        v::cover(0);
        match Grid::<Tok, P, S>::try_from(vv) {
            Ok(g) => {
                check!(!outside);
                let mut i = 0;
                for x in g {
                    check!(x.0 == given(i).unwrap_or(0));
                    i += 1;
                }
                check!(i == S);
            }
            Err(e) => {
                // too many empty lines may be refused as well
                check!(outside || n > h);
                check!(e == Error::OutOfBounds);
            }
        }
    } else {
        v::cover(1);
        let mut g = Grid::<Tok, P, S>::default();
        let mut old = [0; S];
        let mut i = 0;
        for x in g.iter_mut() {
            old[i] = v::any(16) as u16;
            *x = Tok(old[i]);
            i += 1;
        }
        let r = g.extend_from_vecvec(vv);
        match r {
            Ok(()) => check!(!outside),
            Err(ref e) => {
                check!(outside || n > h);
                check!(*e == Error::OutOfBounds);
            }
        }
        i = 0;
        for x in g {
            let want = given(i).unwrap_or(old[i]);
            // after an error a cell may not have been reached
            check!(x.0 == want || (r.is_err() && x.0 == old[i]));
            i += 1;
        }
        check!(i == S);
    }
}
fn vecvec<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    vecvec_of::<Pos<X, Y>, S>(X as usize + 1, Y as usize + 1)
}
/// one line with one element more than the (large) width
fn long<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    let n = X as usize + 1 + v::conc(v::any(1)) as usize;
    let mut l = vec![0u8; n];
    l[n - 1] = 1;
    let mut vv = vec![l];
    for _ in 0..v::conc(v::below(Y as u64 + 1)) {
        vv.insert(0, Vec::new());
    }
    let mut g = Box::new(Grid::<u8, Pos<X, Y>, S>::repeat(7));
    if v::conc(v::any(1)) == 0 {
        let r = g.extend_from_vecvec(vv);
        check!(r.is_err() == (n == X as usize + 2));
        if r.is_err() {
            check!(g.as_array()[0] != 1);
        }
    } else {
        let r = Grid::<u8, Pos<X, Y>, S>::try_from(vv);
        check!(r.is_err() == (n == X as usize + 2));
    }
}
/// one element after many empty lines
fn tall<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    let n = [0, 1, 2, 3, 255, 256, 257, 258, 65535, 65536, 65537][v::conc(v::below(11)) as usize];
    let mut vv = Vec::with_capacity(n + 1);
    for _ in 0..n {
        vv.push(Vec::new());
    }
    let t = v::any(8) as u8;
    vv.push(vec![t]);
    let mut g = Grid::<u8, Pos<X, Y>, S>::repeat(7);
    let r = if v::conc(v::any(1)) == 0 {
        g.extend_from_vecvec(vv)
    } else {
        Grid::<u8, Pos<X, Y>, S>::try_from(vv).map(|h| g = h)
    };
    if n > Y as usize {
        check!(r == Err(Error::OutOfBounds));
        for x in g.iter() {
            check!(*x == 7);
        }
    } else {
        check!(r == Ok(()));
        check!(g.as_array()[n * (X as usize + 1)] == t);
    }
}

gdims! { "h" "p14", tall; 0 0, 0 3, 3 1, 2 257 }
gdims! { "h" "p14", collect; 0 0, 0 3, 3 0, 1 1, 2 1, 1 2, 2 3 }
gdims! { "t" "p14", collect; 15 15, 0 99, 99 0, 6 7 }
gdims! { "h" "p14", endless; 0 0, 1 2, 3 0 }
gdims! { "h" "p14", extend; 0 0, 0 3, 3 0, 2 3 }
gdims! { "t" "p14", extend; 6 5, 5 6, 15 3 }
gdims! { "h" "p14", vecvec; 0 0, 0 3, 3 0, 1 1, 2 1, 1 2 }
gdims! { "t" "p14", vecvec; 2 2, 2 3, 3 2, 0 7, 9 0 }
gdims! { "h" "p14", long; 255 0, 255 1 }
gdims! { "t" "p14", long; 256 0, 1023 0 }
inst! {
    h_p14_collect_own1 => collect_of::<Own1, 12>;
    h_p14_collect_own2 => collect_of::<Own2, 15>;
    t_p14_vecvec_own1 => vecvec_own1;
    t_p14_vecvec_own2 => vecvec_own2;
}
fn vecvec_own1() {
    vecvec_of::<Own1, 12>(3, 4)
}
fn vecvec_own2() {
    vecvec_of::<Own2, 15>(5, 3)
}
