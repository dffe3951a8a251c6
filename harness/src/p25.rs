//! The exact text. Cells of any ASCII character each, in grids with maxima (0,0) (2,1) (9,9) (10,2) (2,10) (99,1)
//! (1,100) (100,0) (300,0) (0,300) (thorough: (1000,1) (0,1000) (40,40)) and of user-defined position types, without padding and
//! with widths 0, 1, 2 and 5; gridbools of any content in (0,0) (2,2) (3,1) and (9,3) (39,0) with any five cells set (the
//! 32nd among them); cells of any unicode character, of any `u8` and of any `i8` value in grids of up to 4 cells,
//! with the three alignments, a fill character and a width of up to 6 (also widths the text does not fit into).
//! The functions of std that are shipped as machine code are compiled from the toolchain's source for this.
use crate::u::{Own1, Own2};
use crate::v;
use sqrid::*;
use std::fmt;

/// a cell whose text is one ASCII character
#[derive(Debug, Default, Clone, Copy)]
struct Ch(u8);
impl fmt::Display for Ch {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(unsafe { std::str::from_utf8_unchecked(std::slice::from_ref(&self.0)) })
    }
}
fn digits(n: usize) -> usize {
    if n < 10 {
        1
    } else {
        1 + digits(n / 10)
    }
}
/// the digit of `n`, written in `w` places, at place `i`
fn digit(mut n: usize, w: usize, i: usize) -> u8 {
    if i < w - digits(n) {
        return b' ';
    }
    for _ in i + 1..w {
        n /= 10;
    }
    b'0' + (n % 10) as u8
}
/// how texts are padded: width, alignment ('<' '>' '^') and fill
#[derive(Clone, Copy)]
struct Pad(usize, u8, u8);
const NONE: Pad = Pad(0, b'<', b' ');
/// a text of `n` characters
fn put(out: &mut Vec<u8>, text: &[u8], n: usize, p: Pad) {
    let gap = if n < p.0 { p.0 - n } else { 0 };
    let before = match p.1 {
        b'<' => 0,
        b'>' => gap,
        _ => gap / 2,
    };
    for _ in 0..before {
        out.push(p.2);
    }
    for c in text {
        out.push(*c);
    }
    for _ in before..gap {
        out.push(p.2);
    }
}
/// the text of a grid; `cell` writes that of one
fn expected(w: usize, h: usize, cell: impl Fn(&mut Vec<u8>, usize), p: Pad) -> Vec<u8> {
    let (nx, ny) = (digits(w - 1), digits(h - 1));
    let mut out = Vec::new();
    let labels = |out: &mut Vec<u8>| {
        for i in 0..nx {
            for _ in 0..ny + 1 {
                out.push(b' ');
            }
            for x in 0..w {
                put(out, &[digit(x, nx, i)], 1, p);
            }
            out.push(b'\n');
        }
    };
    labels(&mut out);
    for y in 0..h {
        for i in 0..ny {
            out.push(digit(y, ny, i));
        }
        out.push(b' ');
        for x in 0..w {
            cell(&mut out, y * w + x);
        }
        out.push(b'\n');
    }
    labels(&mut out);
    out
}
fn same(got: String, want: &[u8]) {
    let got = got.as_bytes();
    check!(got.len() == want.len());
    let mut diff = 0;
    for i in 0..want.len().min(got.len()) {
        diff |= got[i] ^ want[i];
    }
    check!(diff == 0);
}

fn ascii<P: PosT, const S: usize>(w: usize, h: usize) {
    let mut g = Grid::<Ch, P, S>::default();
    for c in g.iter_mut() {
        c.0 = v::any(7) as u8;
    }
    let g = &g;
    let text = |p: Pad| expected(w, h, |out: &mut Vec<u8>, i: usize| put(out, &[g.as_array()[i].0], 1, p), p);
    match v::conc(v::below(5)) {
        0 => same(format!("{}", g), &text(NONE)),
        1 => same(format!("{:w$}", g, w = 0), &text(NONE)),
        2 => same(format!("{:1}", g), &text(NONE)),
        3 => same(format!("{:2}", g), &text(Pad(2, b'<', b' '))),
        _ => same(format!("{:5}", g), &text(Pad(5, b'<', b' '))),
    }
}
fn chars<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    ascii::<Pos<X, Y>, S>(X as usize + 1, Y as usize + 1)
}
fn own() {
    if v::conc(v::any(1)) == 0 {
        ascii::<Own1, 12>(3, 4)
    } else {
        ascii::<Own2, 15>(5, 3)
    }
}
gdims! { "h" "p25", chars; 0 0, 2 1, 9 9, 10 2, 2 10, 99 1, 1 100, 100 0, 300 0, 0 300 }
gdims! { "t" "p25", chars; 1000 1, 0 1000, 40 40 }
inst! { h_p25_own => own; }

fn bools<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    let mut g = Gridbool::<Pos<X, Y>, W>::default();
    // all cells, or five
    let free = if S > 9 { (1u64 << 0) | 1 << 31 | 1 << 32 | 1 << (S / 2) | 1 << (S - 1) } else { (1 << S) - 1 };
    let bits = v::any(S as u32);
    v::assume(bits & !free == 0);
    for y in 0..=Y {
        for x in 0..=X {
            let i = y as usize * (X as usize + 1) + x as usize;
            if free >> i & 1 == 1 {
                if let Ok(p) = Pos::<X, Y>::new(x, y) {
                    g.set(&p, bits >> i & 1 == 1);
                }
            }
        }
    }
    let text = |p: Pad| {
        expected(X as usize + 1, Y as usize + 1, |out: &mut Vec<u8>, i: usize| put(out, if bits >> i & 1 == 1 { b"#" } else { b"." }, 1, p), p)
    };
    match v::conc(v::below(2)) {
        0 => same(format!("{}", g), &text(NONE)),
        _ => same(format!("{:3}", g), &text(Pad(3, b'<', b' '))),
    }
}
gdims! { "h" "p25", bools; 0 0, 2 2, 3 1, 9 3, 39 0 }

fn formats(g: &dyn fmt::Display, w: usize, h: usize, cell: &dyn Fn(&mut Vec<u8>, usize, Pad)) {
    let text = |p: Pad| expected(w, h, |out: &mut Vec<u8>, i: usize| cell(out, i, p), p);
    match v::conc(v::below(7)) {
        0 => same(format!("{}", g), &text(NONE)),
        1 => same(format!("{:<2}", g), &text(Pad(2, b'<', b' '))),
        2 => same(format!("{:>3}", g), &text(Pad(3, b'>', b' '))),
        3 => same(format!("{:^4}", g), &text(Pad(4, b'^', b' '))),
        4 => same(format!("{:*^5}", g), &text(Pad(5, b'^', b'*'))),
        5 => same(format!("{:_>6}", g), &text(Pad(6, b'>', b'_'))),
        _ => same(format!("{:6}", g), &text(Pad(6, b'<', b' '))),
    }
}
fn unicode<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    let mut g = Grid::<char, Pos<X, Y>, S>::repeat(' ');
    for i in 0..S {
        let c = v::any(21) as u32;
        v::assume(c < 0x110000 && (c < 0xd800 || c >= 0xe000));
        g.as_array_mut()[i] = unsafe { char::from_u32_unchecked(c) };
    }
    let g = &g;
    formats(g, X as usize + 1, Y as usize + 1, &|out, i, p| {
        let c = g.as_array()[i] as u32;
        let part = |n: u32, lead: u32| (lead | (c >> n & 63)) as u8;
        if c < 0x80 {
            put(out, &[c as u8], 1, p)
        } else if c < 0x800 {
            put(out, &[part(6, 0xc0), part(0, 0x80)], 1, p)
        } else if c < 0x10000 {
            put(out, &[part(12, 0xe0), part(6, 0x80), part(0, 0x80)], 1, p)
        } else {
            put(out, &[part(18, 0xf0), part(12, 0x80), part(6, 0x80), part(0, 0x80)], 1, p)
        }
    })
}
/// -128 to 255, in decimals
fn number(out: &mut Vec<u8>, n: i16, p: Pad) {
    let mut a = if n < 0 { -n } else { n } as u8;
    let mut t = Vec::new();
    if n < 0 {
        t.push(b'-');
    }
    let places = if a >= 100 { 3 } else if a >= 10 { 2 } else { 1 };
    for unit in [100, 10, 1] {
        let mut d = b'0';
        for k in 1..10u16 {
            d += (a as u16 >= k * unit) as u8;
        }
        if places == 3 || unit == 1 || places == 2 && unit == 10 {
            t.push(d);
        }
        a -= (d - b'0') * unit as u8;
    }
    put(out, &t, t.len(), p)
}
fn bytes<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    let mut g = Grid::<u8, Pos<X, Y>, S>::repeat(0);
    for i in 0..S {
        g.as_array_mut()[i] = v::any(8) as u8;
    }
    let g = &g;
    formats(g, X as usize + 1, Y as usize + 1, &|out, i, p| number(out, g.as_array()[i] as i16, p))
}
fn numbers<const X: u16, const Y: u16, const S: usize, const W: usize>() {
    let mut g = Grid::<i8, Pos<X, Y>, S>::repeat(0);
    for i in 0..S {
        g.as_array_mut()[i] = v::any(8) as i8;
    }
    let g = &g;
    formats(g, X as usize + 1, Y as usize + 1, &|out, i, p| number(out, g.as_array()[i] as i16, p))
}
gdims! { "h" "p25", unicode; 1 0, 0 1 }
gdims! { "h" "p25", bytes; 1 0, 0 2 }
gdims! { "h" "p25", numbers; 1 0 }
gdims! { "t" "p25", unicode; 1 1, 2 0 }
gdims! { "t" "p25", bytes; 1 1, 3 0 }
gdims! { "t" "p25", numbers; 1 1 }
