//! Grids of 1 to 96 cells, around the multiples of 32 (maxima (0,0) (5,0) (0,5) (2,3) (30,0) (31,0) (32,0) (0,31) (0,32)
//! (6,8) (7,7) (4,12) (31,2) and user-defined position types), with both numbers of words that are accepted
//! for multiples of 32; every content; sequences of up to three writes through every form at any
//! positions, read back at any position; every pair of contents for comparison and hashing; one write at any of 25 positions of 256x257 and 65535x2; iterators
//! over every content of up to 8 cells and over contents with one or two exceptions in the larger grids.
use crate::u::{Own1, Own2};
use crate::{u, v};
use sqrid::*;
use std::hash::{Hash, Hasher};

/// every content
fn content<P: PosT, const W: usize>() -> Gridbool<P, W> {
    let mut g = Gridbool::<P, W>::repeat(true);
    for w in g.as_inner_mut() {
        *w &= v::any(32) as u32;
    }
    g
}
fn write<P: PosT, const W: usize, const N: usize>(any: impl Fn() -> P) {
    v::covers(5);
    let mut g = content::<P, W>();
    let q = any();
    let mut want = g.get(&q);
    for _ in 0..N {
        let p = any();
        let b = v::any_bool();
        let form = v::conc(v::below(5));
        v::cover(form as u32);
        let p2 = if form > 2 { any() } else { p };
        let val = match form {
            0 => {
                g.set_t(&p);
                true
            }
            1 => {
                g.set_f(&p);
                false
            }
            2 => {
                g.set(&p, b);
                b
            }
            3 => {
                g.set_iter_t([p, p2, p].into_iter());
                true
            }
            _ => {
                g.set_iter_f(u::Loose([p2, p, p2].into_iter()));
                false
            }
        };
        if (p == q) | (p2 == q) {
            want = val;
        }
    }
    check!(g.get(&q) == want);
    check!(g[q] == want && g[&q] == want);
}
fn write1<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    write::<Pos<X, Y>, W, 1>(u::pos::<X, Y>)
}
fn write2<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    write::<Pos<X, Y>, W, 2>(u::pos::<X, Y>)
}
fn write3<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    write::<Pos<X, Y>, W, 3>(u::pos::<X, Y>)
}

#[derive(Default)]
struct H(u64);
impl Hasher for H {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(7) ^ *x as u64;
        }
    }
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = H::default();
    t.hash(&mut h);
    h.finish()
}
fn same<P: PosT + Ord + Hash, const W: usize>(a: &Gridbool<P, W>, b: &Gridbool<P, W>) {
    let mut eq = true;
    for p in P::iter() {
        eq &= a.get(&p) == b.get(&p);
    }
    check!((a == b) == eq);
    check!((a.cmp(b) == std::cmp::Ordering::Equal) == eq);
    check!((a.partial_cmp(b) == Some(std::cmp::Ordering::Equal)) == eq);
    check!(!eq || hash(a) == hash(b));
    check!(a.cmp(b) == b.cmp(a).reverse());
}
/// comparison is by content, however it came about
fn compare<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    compare_of::<Pos<X, Y>, W>(u::pos::<X, Y>)
}
fn compare_of<P: PosT + Ord + Hash, const W: usize>(any: impl Fn() -> P) {
    v::merge(true);
    v::covers(5);
    let a = content::<P, W>();
    let how = v::conc(v::below(5));
    v::cover(how as u32);
    let b = match how {
        0 => content::<P, W>(),
        1 => {
            let mut b = a;
            let (p, q) = (any(), any());
            b.set_t(&p);
            b.set_f(&q);
            b
        }
        2 => {
            // all set one by one, all cleared one by one
            let mut b = Gridbool::<P, W>::default();
            for p in P::iter() {
                b.set_t(&p);
            }
            same(&b, &Gridbool::repeat(true));
            same(&b, &Gridbool::ALL_TRUE);
            for p in P::iter() {
                b.set_f(&p);
            }
            same(&b, &Gridbool::repeat(false));
            same(&b, &Gridbool::ALL_FALSE);
            same(&b, &Gridbool::default());
            let p = any();
            check!(Gridbool::<P, W>::ALL_TRUE.get(&p) && Gridbool::<P, W>::ALL_TRUE[p]);
            check!(!Gridbool::<P, W>::ALL_FALSE.get(&p) && !Gridbool::<P, W>::ALL_FALSE[p]);
            check!(Gridbool::<P, W>::repeat(true).get(&p) && !Gridbool::<P, W>::repeat(false).get(&p));
            check!(!Gridbool::<P, W>::default().get(&p) && !b.get(&p));
            b.set_iter_t(P::iter());
            check!(b.get(&p));
            b
        }
        3 => a.iter().collect(),
        _ => [any(), any()].into_iter().collect(),
    };
    same(&a, &b);
    if how == 3 {
        check!(a == b);
    }
}
fn spare<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    // S is a multiple of 32: one more word is accepted too
    match v::conc(v::below(3)) {
        0 => write::<Pos<X, Y>, W, 1>(u::pos::<X, Y>),
        1 => compare_of::<Pos<X, Y>, W>(u::pos::<X, Y>),
        _ => uniform_of::<Pos<X, Y>, W>(S),
    }
}
macro_rules! spare {
    ($($n:ident: $x:literal $y:literal $w:literal;)*) => {
        $(#[no_mangle] pub extern "C" fn $n() { spare::<$x, $y, { ($x + 1) * ($y + 1) }, $w>() })*
    };
}

/// iterators agree with `get`
fn iters<P: PosT, const W: usize>(g: Gridbool<P, W>, n: usize) {
    let mut i = 0;
    let mut it = P::iter();
    for b in g.iter() {
        let Some(p) = it.next() else {
            check!(false);
            return;
        };
        check!(b == g.get(&p));
        i += 1;
    }
    check!(i == n);
    i = 0;
    let mut it = P::iter();
    for (p, b) in g.iter_pos() {
        check!(Some(p) == it.next());
        check!(b == g.get(&p));
        i += 1;
    }
    check!(i == n);
    // split them in true and false ones: the same positions in the same order
    let (mut t, mut f) = (g.iter_t(), g.iter_f());
    for p in P::iter() {
        if g.get(&p) {
            check!(t.next() == Some(p));
        } else {
            check!(f.next() == Some(p));
        }
    }
    check!(t.next().is_none() && f.next().is_none());
    // and back
    let mut h = Gridbool::<P, W>::repeat(v::any_bool());
    h.set_iter_t(g.iter_t());
    h.set_iter_f(g.iter_f());
    check!(h == g);
    check!(g.iter_t().collect::<Gridbool<P, W>>() == g);
    check!(g.iter().collect::<Gridbool<P, W>>() == g);
}
fn every<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    iters::<Pos<X, Y>, W>(content(), S)
}
fn exceptions<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    let mut g = Gridbool::<Pos<X, Y>, W>::repeat(v::conc(v::any(1)) == 1);
    g.set(&u::pos(), v::conc(v::any(1)) == 1);
    iters::<Pos<X, Y>, W>(g, S)
}
fn exceptions2<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    let mut g = Gridbool::<Pos<X, Y>, W>::repeat(v::conc(v::any(1)) == 1);
    g.set(&u::pos(), v::conc(v::any(1)) == 1);
    g.set(&u::pos(), v::conc(v::any(1)) == 1);
    iters::<Pos<X, Y>, W>(g, S)
}
fn uniform_of<P: PosT, const W: usize>(n: usize) {
    iters::<P, W>(Gridbool::repeat(v::conc(v::any(1)) == 1), n)
}
/// collecting booleans: exactly one per position
fn collect<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    v::merge(true);
    let n = S + v::conc(v::below(4)) as usize;
    v::assume(n >= 2);
    let n = n - 2;
    let bits = [v::any(64), v::any(64)];
    v::expect_panic(n != S);
    let it = (0..n).map(|i| bits[i / 64] >> (i % 64) & 1 != 0);
    let g = if v::conc(v::any(1)) == 0 { it.collect::<Gridbool<Pos<X, Y>, W>>() } else { u::Loose(it).collect() };
    check!(n == S);
    v::expect_panic(false);
    let mut i = 0;
    let mut ok = true;
    for p in Pos::<X, Y>::iter() {
        ok &= g.get(&p) == (bits[i / 64] >> (i % 64) & 1 != 0);
        i += 1;
    }
    check!(ok && i == S);
}
/// one write near the edges or in the middle of a very large gridbool
fn far<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    v::covers(5);
    let some = |max: u16| [0, 1, max / 2, max - 1, max][v::conc(v::below(5)) as usize];
    let any = || match Pos::<X, Y>::new(some(X), some(Y)) {
        Ok(p) => p,
        Err(_) => {
            check!(false);
            unreachable!()
        }
    };
    let p = any();
    let form = v::conc(v::below(5));
    v::cover(form as u32);
    let b = matches!(form, 0 | 3 | 4);
    let mut g = Box::new(Gridbool::<Pos<X, Y>, W>::repeat(!b));
    match form {
        0 => g.set_t(&p),
        1 => g.set_f(&p),
        2 => g.set(&p, b),
        3 => g.set(&p, b),
        _ => *g = u::Loose([p].into_iter()).collect(),
    }
    let q = any();
    check!(g.get(&q) == (b == (p == q)));
    check!(g[q] == g.get(&q) && g[&q] == g.get(&q));
    let mut n = 0;
    for w in g.as_inner() {
        n += w.count_ones();
    }
    check!(n as usize == if b { 1 } else { S - 1 });
}
fn own1() -> Own1 {
    Own1(BoundedU8(v::below(3) as u8), BoundedI32(v::below(4) as i32))
}
fn own2() -> Own2 {
    Own2(BoundedI64(v::below(5) as i64), BoundedU128(v::below(3) as u128))
}

gdims! { "h" "p15", write1; 0 0, 5 0, 0 5, 2 3, 30 0, 31 0, 32 0, 0 31, 0 32, 6 8, 7 7, 4 12, 31 2 }
gdims! { "h" "p15", write2; 0 0, 5 0, 32 0, 0 32, 4 12 }
gdims! { "h" "p15", write1; 63 1, 95 1, 1 95, 127 0 }
gdims! { "t" "p15", write3; 5 0, 2 3, 32 0, 0 32, 6 8, 7 7, 4 12 }
gdims! { "t" "p15", write1; 63 63, 0 999, 255 3 }
gdims! { "h" "p15", compare; 0 0, 5 0, 0 5, 30 0, 31 0, 32 0, 0 32, 7 7, 4 12, 31 2 }
gdims! { "t" "p15", compare; 11 11, 15 15, 0 99 }
gdims! { "h" "p15", every; 0 0, 5 0, 0 5, 2 1, 3 1 }
gdims! { "t" "p15", every; 2 3, 11 0, 0 11 }
gdims! { "h" "p15", exceptions; 30 0, 31 0, 32 0, 0 32, 7 7, 4 12 }
gdims! { "t" "p15", exceptions; 11 11, 31 2, 0 99 }
gdims! { "t" "p15", exceptions2; 32 0, 0 32, 7 7, 4 12 }
gdims! { "h" "p15", collect; 0 0, 0 5, 5 0, 31 0, 0 32, 7 7, 4 12 }
gdims! { "h" "p15", far; 255 256, 65534 1 }
gdims! { "t" "p15", far; 1 65534, 511 511 }
spare! {
    h_p15_spare_31x0: 31 0 2;
    h_p15_spare_7x7: 7 7 3;
    h_p15_spare_0x31: 0 31 2;
}
inst! {
    h_p15_write_own1 => write_own1;
    h_p15_write_own2 => write_own2;
    h_p15_compare_own1 => compare_own1;
    h_p15_compare_own2 => compare_own2;
    h_p15_uniform_own1 => uniform_own1;
    h_p15_uniform_own2 => uniform_own2;
}
fn write_own1() {
    write::<Own1, 1, 2>(own1)
}
fn write_own2() {
    write::<Own2, 1, 2>(own2)
}
fn compare_own1() {
    compare_of::<Own1, 1>(own1)
}
fn compare_own2() {
    compare_of::<Own2, 1>(own2)
}
fn uniform_own1() {
    uniform_of::<Own1, 1>(12)
}
fn uniform_own2() {
    uniform_of::<Own2, 1>(15)
}
