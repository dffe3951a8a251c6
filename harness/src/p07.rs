//! All 8 directions (all pairs, triples), all pairs of isize, i8, i16, i32, i64 and i128 values, all
//! Unicode scalar values, all strings of up to 3 characters.
use crate::{u, v};
use sqrid::*;
use std::str::FromStr;

fn group() {
    let (a, b, c) = (u::dir(), u::dir(), u::dir());
    let (i, j) = (a as usize, b as usize);
    check!((a + b) as usize == (i + j) % 8);
    check!(a.rotate(&b) == a + b);
    let mut m = a;
    m += b;
    check!(m == a + b);
    check!(a + b == b + a);
    check!((a + b) + c == a + (b + c));
    check!(a + Dir::N == a);
    check!(-a == a.flip() && -(-a) == a);
    check!(-a == a + Dir::S);
    let ((x, y), (fx, fy)) = (u::vec_of(a), u::vec_of(-a));
    check!(fx == -x && fy == -y);
    check!(a.is_diagonal() == (x != 0 && y != 0));
    // adding E turns the unit vector a quarter clockwise (y grows southwards)
    check!(u::vec_of(a + Dir::E) == (-y, x));
    check!(Dir::default() == Dir::N && Dir::SIZE == 8);
    v::observe((a + b) as u64);
}

fn next() {
    v::covers(2);
    let a = u::dir();
    let i = a as usize;
    check!(a.next::<true>() == if i == 7 { None } else { Some(Dir::ALL8[i + 1]) });
    // the first of the four main directions that comes later, if any
    if !a.is_diagonal() {
        v::cover(0);
        check!(a.next::<false>() == if i == 6 { None } else { Some(Dir::ALL8[i + 2]) });
    } else {
        v::cover(1);
        // no panic; and nothing comes after NW
        let n = a.next::<false>();
        check!(n.is_none() == (a == Dir::NW));
        if let Some(n) = n {
            check!(n as usize > i);
        }
    }
}

fn iters() {
    let all = [Dir::N, Dir::NE, Dir::E, Dir::SE, Dir::S, Dir::SW, Dir::W, Dir::NW];
    check!(Dir::ALL8 == all);
    check!(Dir::ALL4 == [Dir::N, Dir::E, Dir::S, Dir::W]);
    let mut i8 = Dir::iter::<true>();
    let mut i4 = Dir::iter::<false>();
    for k in 0..8 {
        check!(i8.next() == Some(all[k]));
        check!(all[k] as usize == k);
        if k % 2 == 0 {
            check!(i4.next() == Some(all[k]));
        }
    }
    check!(i8.next().is_none() && i4.next().is_none());
    check!(i8.next().is_none() && i4.next().is_none());
}
fn iter_methods() {
    if v::any_bool() {
        check!(u::ways(Dir::iter::<true>(), 8, |k| Dir::ALL8[k]));
    } else {
        check!(u::ways(Dir::iter::<false>(), 4, |k| Dir::ALL4[k]));
    }
}

macro_rules! vectors {
    ($name:ident, $t:ty) => {
        fn $name() {
            v::covers(2);
            let d = u::dir();
            let (x, y) = u::vec_of(d);
            let t: ($t, $t) = d.into();
            check!(t == (x as $t, y as $t));
            check!(Dir::try_from(t) == Ok(d) && Dir::try_from(&t) == Ok(d));
            let p = (v::any128() as $t, v::any128() as $t);
            let unit = p.0 >= -1 && p.0 <= 1 && p.1 >= -1 && p.1 <= 1 && p != (0, 0);
            check!(Dir::try_from(&p) == Dir::try_from(p));
            match Dir::try_from(p) {
                Ok(d) => {
                    v::cover(0);
                    check!(unit);
                    let (x, y) = u::vec_of(d);
                    check!(p == (x as $t, y as $t));
                }
                Err(e) => {
                    v::cover(1);
                    check!(!unit);
                    check!(e == Error::InvalidDirection);
                }
            }
        }
    };
}
vectors!(v_isize, isize);
vectors!(v_i8, i8);
vectors!(v_i16, i16);
vectors!(v_i32, i32);
vectors!(v_i64, i64);
vectors!(v_i128, i128);

/// documented symbols: letters of the four main directions in both cases,
/// arrows, and the ASCII drawings
fn sym(c: char) -> Option<Dir> {
    let t: [(u32, Dir); 24] = [
        ('N' as u32, Dir::N),
        ('E' as u32, Dir::E),
        ('S' as u32, Dir::S),
        ('W' as u32, Dir::W),
        ('n' as u32, Dir::N),
        ('e' as u32, Dir::E),
        ('s' as u32, Dir::S),
        ('w' as u32, Dir::W),
        (0x2191, Dir::N),
        (0x2197, Dir::NE),
        (0x2192, Dir::E),
        (0x2198, Dir::SE),
        (0x2193, Dir::S),
        (0x2199, Dir::SW),
        (0x2190, Dir::W),
        (0x2196, Dir::NW),
        ('^' as u32, Dir::N),
        ('7' as u32, Dir::NE),
        ('>' as u32, Dir::E),
        ('\\' as u32, Dir::SE),
        ('v' as u32, Dir::S),
        ('L' as u32, Dir::SW),
        ('<' as u32, Dir::W),
        ('`' as u32, Dir::NW),
    ];
    let mut r = None;
    for (k, d) in t {
        if c as u32 == k {
            r = Some(d);
        }
    }
    r
}
fn any_char() -> char {
    match char::from_u32(v::any(21) as u32) {
        Some(c) => c,
        None => {
            v::assume(false);
            'x'
        }
    }
}
fn chars() {
    v::covers(2);
    let c = any_char();
    let r = Dir::try_from(c);
    match sym(c) {
        Some(d) => {
            v::cover(0);
            check!(r == Ok(d));
        }
        None => {
            v::cover(1);
            check!(r == Err(Error::DirParseError));
        }
    }
}
fn strings() {
    v::covers(4);
    let n = v::conc(v::below(4)) as usize;
    v::cover(n as u32);
    let mut buf = [0u8; 12];
    let mut len = 0;
    let mut first = None;
    for k in 0..n {
        let c = any_char();
        if k == 0 {
            first = Some(c);
        }
        len += c.encode_utf8(&mut buf[len..]).len();
    }
    let s = unsafe { std::str::from_utf8_unchecked(&buf[..len]) };
    let r = Dir::from_str(s);
    if n == 1 {
        match sym(first.unwrap()) {
            Some(d) => check!(r == Ok(d)),
            None => check!(r == Err(Error::DirParseError)),
        }
    } else {
        check!(r == Err(Error::DirParseError));
    }
}
fn names() {
    let d = Dir::ALL8[v::conc(v::any(3)) as usize];
    let i = d as usize;
    check!(Dir::try_from(d.name_utf8_char()) == Ok(d));
    check!(Dir::try_from(d.name_ascii_char()) == Ok(d));
    check!(Dir::from_str(d.name_utf8()) == Ok(d));
    check!(Dir::from_str(d.name_ascii()) == Ok(d));
    check!(d.name_utf8().chars().next() == Some(d.name_utf8_char()));
    check!(d.name_ascii().chars().next() == Some(d.name_ascii_char()));
    let (x, y) = u::vec_of(d);
    let mut want = [0u8; 2];
    let mut n = 0;
    if y != 0 {
        want[n] = if y < 0 { b'N' } else { b'S' };
        n += 1;
    }
    if x != 0 {
        want[n] = if x > 0 { b'E' } else { b'W' };
        n += 1;
    }
    let got = d.name_cardinal().as_bytes();
    check!(got.len() == n);
    for k in 0..n {
        check!(got[k] == want[k]);
    }
    check!(Dir::NAMES_CARDINAL[i].len() == n && Dir::NAMES_UTF8_CHAR[i] == d.name_utf8_char());
    check!(Dir::NAMES_ASCII_CHAR[i] == d.name_ascii_char());
}
inst! {
    h_p07_group => group;
    h_p07_next => next;
    h_p07_iters => iters;
    h_p07_iter_methods => iter_methods;
    h_p07_vec_isize => v_isize;
    h_p07_vec_i8 => v_i8;
    h_p07_vec_i16 => v_i16;
    h_p07_vec_i32 => v_i32;
    h_p07_vec_i64 => v_i64;
    h_p07_vec_i128 => v_i128;
    h_p07_chars => chars;
    h_p07_strings => strings;
    h_p07_names => names;
}
