//! Every position of grids with maxima (0,0) (9,9) (2,300) (99,1000) (65534,65534); every direction; every value of
//! bounded integers of 8 to 64 bits with bounds -3..=7, 0..=255, -128..=127, 5..=60000, -40000..=40000, all of u32 and u64, i64::MIN..=99, -1000..=1000; those of
//! 128 bits around 0 10^4 2^16 10^8 2^32 10^16. Each
//! against the text of the plain integer.
use crate::{u, v};
use sqrid::*;
use std::fmt::{Debug, Display};

fn same(a: String, b: String) {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    check!(a.len() == b.len());
    let mut diff = 0;
    for i in 0..a.len().min(b.len()) {
        diff |= a[i] ^ b[i];
    }
    check!(diff == 0);
}
fn pos<const X: u16, const Y: u16>() {
    let (x, y) = (v::any(16) as u16, v::any(16) as u16);
    v::assume(x <= X && y <= Y);
    if let Ok(p) = Pos::<X, Y>::new(x, y) {
        same(format!("{}", p), format!("({},{})", x, y));
    } else {
        check!(false);
    }
}
dims! { "p26", pos; 0 0, 9 9, 2 300, 99 1000, 65534 65534 }

fn dir() {
    let d = Dir::ALL8[v::conc(v::any(3)) as usize];
    let name = ["N", "NE", "E", "SE", "S", "SW", "W", "NW"][crate::s::dir_no(d)];
    same(format!("{}", d), name.to_string());
    same(format!("{}", d.name_cardinal()), name.to_string());
}
fn bounded<B: Copy + Display + Debug, T: Copy + Display + Debug>(make: impl Fn(T) -> Option<B>, n: T) {
    if let Some(b) = make(n) {
        match v::conc(v::below(2)) {
            0 => same(format!("{}", b), format!("{}", n)),
            _ => same(format!("{:?}", b), format!("{:?}", n)),
        }
    }
}
fn i8s() {
    bounded(|n| BoundedI8::<-3, 7>::new(n).ok(), v::any(8) as i8);
}
fn i8all() {
    bounded(|n| BoundedI8::<-128, 127>::new(n).ok(), v::any(8) as i8);
}
fn u8s() {
    bounded(|n| BoundedU8::<0, 255>::new(n).ok(), v::any(8) as u8);
}
fn u16s() {
    bounded(|n| BoundedU16::<5, 60000>::new(n).ok(), v::any(16) as u16);
}
fn i32s() {
    bounded(|n| BoundedI32::<-40000, 40000>::new(n).ok(), v::any(32) as i32);
}
fn u32s() {
    bounded(|n| BoundedU32::<0, { u32::MAX }>::new(n).ok(), v::any(32) as u32);
}
fn u64s() {
    bounded(|n| BoundedU64::<0, { u64::MAX }>::new(n).ok(), v::any(64));
}
fn i64s() {
    bounded(|n| BoundedI64::<{ i64::MIN }, 99>::new(n).ok(), v::any(64) as i64);
}
fn usizes() {
    bounded(|n| BoundedIsize::<-1000, 1000>::new(n).ok(), v::any(64) as isize);
}
/// beyond 10^16, std calculates with 256 bits
fn wide() -> u128 {
    [0, 9_900, 65_408, 99_999_900, u32::MAX as u128 - 100, 9_999_999_999_999_744][v::conc(v::below(6)) as usize] + v::any(8) as u128
}
fn u128s() {
    bounded(|n| BoundedU128::<0, { u128::MAX }>::new(n).ok(), wide());
}
fn i128s() {
    let n = wide() as i128;
    bounded(|n| BoundedI128::<{ i128::MIN }, { i128::MAX }>::new(n).ok(), if v::any_bool() { n } else { -n });
}
inst! {
    h_p26_u128s => u128s;
    h_p26_i128s => i128s;
    h_p26_u32s => u32s;
    h_p26_u64s => u64s;
    h_p26_i64s => i64s;
    h_p26_usizes => usizes;
    h_p26_dir => dir;
    h_p26_i8s => i8s;
    h_p26_i8all => i8all;
    h_p26_u8s => u8s;
    h_p26_u16s => u16s;
    h_p26_i32s => i32s;
}
