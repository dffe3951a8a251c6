//! Any three values of: positions with maxima (0,0) (3,1) (255,9) (65534,65534), directions, bounded integers of the nine
//! types of up to 64 bits with bounds (-)100 and the largest ones, grids of 1, 4 and 6 cells of any `u8` or `i32`. What is hashed is compared, not one hash
//! function's result.
use crate::{u, v};
use sqrid::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// everything that is written to it
struct Tape(u64, u64);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = self.0 << 8 | self.0 >> 56;
            self.0 ^= *c as u64;
            self.1 += 1;
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0 << 13 | self.0 >> 51) ^ x;
        self.1 += 1;
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
fn hash<T: Hash>(a: &T) -> (u64, u64) {
    let mut t = Tape(0, 0);
    a.hash(&mut t);
    (t.0, t.1)
}
#[inline(never)]
fn num(o: Ordering) -> i8 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}
/// `same(i, j)`: are values i and j the same thing?
fn laws<T: Eq + Ord + Hash + Copy>(of: [T; 3], same: [[bool; 3]; 3]) {
    let mut ok = [true; 8];
    for i in 0..2 {
        for j in 0..3 {
            let (a, b) = (&of[i], &of[j]);
            ok[0] &= (a == b) == same[i][j];
            ok[1] &= (a != b) != (a == b);
            let o = a.cmp(b);
            ok[2] &= a.partial_cmp(b) == Some(o);
            ok[3] &= (o == Ordering::Equal) == same[i][j];
            ok[4] &= num(b.cmp(a)) == -num(o);
            ok[5] &= !same[i][j] | (hash(a) == hash(b));
            ok[6] &= (a < b) == (num(o) < 0) && (a <= b) == (num(o) <= 0) && (a > b) == (num(o) > 0) && (a >= b) == (num(o) >= 0);
        }
    }
    // transitive
    ok[7] &= !(of[0] < of[1] && of[1] < of[2]) || of[0] < of[2];
    check!(ok[0]);
    check!(ok[1]);
    check!(ok[2]);
    check!(ok[3]);
    check!(ok[4]);
    check!(ok[5]);
    check!(ok[6]);
    check!(ok[7]);
}
fn table<K: PartialEq + Copy>(k: [K; 3]) -> [[bool; 3]; 3] {
    let mut t = [[false; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            t[i][j] = k[i] == k[j];
        }
    }
    t
}
fn pos<const X: u16, const Y: u16>() {
    let of = [u::pos::<X, Y>(), u::pos::<X, Y>(), u::pos::<X, Y>()];
    laws(of, table([of[0].tuple(), of[1].tuple(), of[2].tuple()].map(|t: (u16, u16)| (t.0 as u32) << 16 | t.1 as u32)));
}
dims! { "p27", pos; 0 0, 3 1, 255 9, 65534 65534 }
fn dir() {
    let k = [v::any(3), v::any(3), v::any(3)].map(v::conc);
    laws(k.map(|i| Dir::ALL8[i as usize]), table(k));
}
macro_rules! bounded {
    ($($name:ident $b:ident $t:ty, $bits:literal, $min:expr, $max:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() {
            let n = [v::any($bits) as $t, v::any($bits) as $t, v::any($bits) as $t];
            let (Ok(a), Ok(b), Ok(c)) = ($b::<{ $min }, { $max }>::new(n[0]), $b::<{ $min }, { $max }>::new(n[1]), $b::<{ $min }, { $max }>::new(n[2])) else {
                return;
            };
            laws([a, b, c], table(n));
            // the order of the values
            check!(num(a.cmp(&b)) == num(n[0].cmp(&n[1])));
        })*
    };
}
bounded! {
    h_p27_u8 BoundedU8 u8, 8, 3, 100;
    h_p27_u8_all BoundedU8 u8, 8, u8::MIN, u8::MAX;
    h_p27_u16 BoundedU16 u16, 16, 3, 100;
    h_p27_u16_all BoundedU16 u16, 16, u16::MIN, u16::MAX;
    h_p27_u32 BoundedU32 u32, 32, 3, 100;
    h_p27_u32_all BoundedU32 u32, 32, u32::MIN, u32::MAX;
    h_p27_u64 BoundedU64 u64, 64, 3, 100;
    h_p27_u64_all BoundedU64 u64, 64, u64::MIN, u64::MAX;
    h_p27_i8 BoundedI8 i8, 8, -100, 100;
    h_p27_i8_all BoundedI8 i8, 8, i8::MIN, i8::MAX;
    h_p27_i16 BoundedI16 i16, 16, -100, 100;
    h_p27_i16_all BoundedI16 i16, 16, i16::MIN, i16::MAX;
    h_p27_i32 BoundedI32 i32, 32, -100, 100;
    h_p27_i32_all BoundedI32 i32, 32, i32::MIN, i32::MAX;
    h_p27_i64 BoundedI64 i64, 64, -100, 100;
    h_p27_i64_all BoundedI64 i64, 64, i64::MIN, i64::MAX;
    h_p27_isize BoundedIsize isize, 64, -100, 100;
    h_p27_isize_all BoundedIsize isize, 64, isize::MIN, isize::MAX;
}
fn grid<T: Eq + Ord + Hash + Copy, const X: u16, const Y: u16, const S: usize>(any: impl Fn() -> T) {
    let mut of = [[any(); S]; 3];
    for g in 0..3 {
        for i in 0..S {
            of[g][i] = any();
        }
    }
    let mut same = [[true; 3]; 3];
    for g in 0..3 {
        for h in 0..3 {
            for i in 0..S {
                same[g][h] &= of[g][i] == of[h][i];
            }
        }
    }
    laws(of.map(|cells| { let mut n = Grid::<T, Pos<X, Y>, S>::repeat(cells[0]); *n.as_array_mut() = cells; n }), same);
}
fn grid1() {
    grid::<u8, 0, 0, 1>(|| v::any(8) as u8)
}
fn grid4() {
    grid::<u8, 1, 1, 4>(|| v::any(8) as u8)
}
fn grid6() {
    grid::<i32, 2, 1, 6>(|| v::any(32) as i32)
}
inst! {
    h_p27_dir => dir;
    h_p27_grid1 => grid1;
    h_p27_grid4 => grid4;
    h_p27_grid6 => grid6;
}
