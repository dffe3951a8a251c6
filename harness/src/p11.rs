//! Iterators over every window of at most 6 values (u128: 4; thorough: 9) placed anywhere in each of the
//! 12 integer types, with every sequence of consumption from the front and the back until it is
//! exhausted and two steps beyond; whole bounded types of 1 to 7 values at the ends of their
//! integer types and around zero; u8 and i8 in full from either end; skipping around 256 and 65536 items.
use crate::v;
use sqrid::*;

/// Consumes the iterator over lo..=lo+n-1 in every order; `val` gives the offset of an item.
#[inline(always)]
fn orders<I, T: BoundedInt>(mut it: I, n: u64, at: impl Fn(u64) -> T)
where
    I: Iterator<Item = T> + DoubleEndedIterator,
{
    let (mut lo, mut hi) = (0, n);
    for _ in 0..n + 2 {
        if v::conc(v::any(1)) == 0 {
            match it.next() {
                Some(x) => {
                    check!(lo < hi);
                    check!(x == at(lo));
                    lo += 1;
                }
                None => check!(lo == hi),
            }
        } else {
            match it.next_back() {
                Some(x) => {
                    check!(lo < hi);
                    hi -= 1;
                    check!(x == at(hi));
                }
                None => check!(lo == hi),
            }
        }
    }
    check!(lo == hi);
}

/// the other ways of consuming, each on a fresh iterator
#[inline(always)]
fn others<I, T: BoundedInt>(new: impl Fn() -> I, n: u64, at: impl Fn(u64) -> T)
where
    I: Iterator<Item = T> + DoubleEndedIterator,
{
    match v::conc(v::below(7)) {
        0 => check!(new().count() as u64 == n),
        1 => check!(new().last() == Some(at(n - 1))),
        2 => {
            let k = v::conc(v::below(n + 1));
            check!(new().nth(k as usize) == if k < n { Some(at(k)) } else { None });
        }
        3 => {
            let k = v::conc(v::below(n + 1));
            check!(new().nth_back(k as usize) == if k < n { Some(at(n - 1 - k)) } else { None });
        }
        4 => {
            let mut i = 0;
            for x in new() {
                check!(x == at(i));
                i += 1;
            }
            check!(i == n);
        }
        5 => {
            let mut i = n;
            for x in new().rev() {
                i -= 1;
                check!(x == at(i));
            }
            check!(i == 0);
        }
        _ => {
            let (l, u) = new().size_hint();
            check!(l as u64 <= n);
            check!(u.is_none_or(|u| u as u64 >= n));
        }
    }
}

macro_rules! window {
    ($name:ident, $t:ty, $max:expr) => {
        fn $name() {
            v::covers(2);
            let lo = if <$t>::BITS == 128 { v::any128() as $t } else { v::any(<$t>::BITS) as $t };
            let n = v::conc(1 + v::below($max));
            v::assume(<$t>::MAX - lo.max(0) >= n as $t - 1);
            let at = |i: u64| lo + i as $t;
            let new = || BoundedIntIterator::new(lo, at(n - 1));
            if v::conc(v::any(1)) == 0 {
                v::cover(0);
                orders(new(), n, at);
            } else {
                v::cover(1);
                others(new, n, at);
            }
        }
    };
}
window!(w_u8, u8, 6);
window!(w_u16, u16, 6);
window!(w_u32, u32, 6);
window!(w_u64, u64, 6);
window!(w_u128, u128, 4);
window!(w_usize, usize, 6);
window!(w_i8, i8, 6);
window!(w_i16, i16, 6);
window!(w_i32, i32, 6);
window!(w_i64, i64, 6);
window!(w_i128, i128, 6);
window!(w_isize, isize, 6);
window!(l_u8, u8, 9);
window!(l_u64, u64, 9);
window!(l_i8, i8, 9);
window!(l_i32, i32, 9);

macro_rules! whole {
    ($name:ident, $b:ident, $t:ty, $lo:expr, $hi:expr) => {
        fn $name() {
            type T = $b<{ $lo }, { $hi }>;
            let n = ($hi as i128 - $lo as i128) as u64 + 1;
            let at = |i: u64| $b::<{ $lo }, { $hi }>(($lo as i128 + i as i128) as $t);
            if v::conc(v::any(1)) == 0 {
                orders(T::iter(), n, at);
            } else {
                others(|| T::iter(), n, at);
            }
        }
    };
}
whole!(b_u8_a, BoundedU8, u8, 0u8, 0u8);
whole!(b_u8_b, BoundedU8, u8, 255u8, 255u8);
whole!(b_u8_c, BoundedU8, u8, 250u8, 255u8);
whole!(b_u8_d, BoundedU8, u8, 3u8, 8u8);
whole!(b_u16_a, BoundedU16, u16, 0u16, 6u16);
whole!(b_u16_b, BoundedU16, u16, 65531u16, 65535u16);
whole!(b_u32_a, BoundedU32, u32, 7u32, 9u32);
whole!(b_u64_a, BoundedU64, u64, u64::MAX - 4, u64::MAX);
whole!(b_u128_a, BoundedU128, u128, 5u128, 9u128);
whole!(b_i8_a, BoundedI8, i8, -128i8, -123i8);
whole!(b_i8_b, BoundedI8, i8, -3i8, 3i8);
whole!(b_i8_c, BoundedI8, i8, 122i8, 127i8);
whole!(b_i16_a, BoundedI16, i16, -1i16, 0i16);
whole!(b_i32_a, BoundedI32, i32, -5i32, -2i32);
whole!(b_i64_a, BoundedI64, i64, i64::MIN, i64::MIN + 3);
whole!(b_i128_a, BoundedI128, i128, -2i128, 2i128);
whole!(b_isize_a, BoundedIsize, isize, isize::MAX - 2, isize::MAX);

macro_rules! full {
    ($name:ident, $t:ty) => {
        /// from the front and the back in turn after a symbolic number of front steps
        fn $name() {
            let k = v::conc(v::below(5)) * 64;
            let mut it = <$t>::iter();
            let (mut lo, mut hi) = (<$t>::MIN as i64, <$t>::MAX as i64);
            for i in 0..258 {
                let r = if i < k { it.next() } else { it.next_back() };
                if lo > hi {
                    check!(r.is_none());
                } else if i < k {
                    check!(r == Some(lo as $t));
                    lo += 1;
                } else {
                    check!(r == Some(hi as $t));
                    hi -= 1;
                }
            }
            check!(lo > hi);
        }
    };
}
/// skipping far
fn far() {
    let k = [254u32, 255, 256, 257, 65534, 65535, 65536, 65537][v::conc(v::any(3)) as usize];
    type T = BoundedI32<-1000, 99_000>;
    let at = |i: i32| T::new(i).ok();
    match v::conc(v::any(2)) {
        0 => check!(T::iter().nth(k as usize) == at(k as i32 - 1000)),
        1 => check!(T::iter().nth_back(k as usize) == at(99_000 - k as i32)),
        2 => check!(BoundedU16::<0, 65535>::iter().nth(k as usize) == BoundedU16::try_from(k).ok()),
        _ => {
            let mut it = T::iter();
            it.nth(k as usize);
            check!(it.count() == 100_000 - k as usize);
        }
    }
}

full!(f_u8, u8);
full!(f_i8, i8);

inst! {
    h_p11_window_u8 => w_u8;
    h_p11_window_u16 => w_u16;
    h_p11_window_u32 => w_u32;
    h_p11_window_u64 => w_u64;
    h_p11_window_u128 => w_u128;
    h_p11_window_usize => w_usize;
    h_p11_window_i8 => w_i8;
    h_p11_window_i16 => w_i16;
    h_p11_window_i32 => w_i32;
    h_p11_window_i64 => w_i64;
    h_p11_window_i128 => w_i128;
    h_p11_window_isize => w_isize;
    t_p11_window_u8 => l_u8;
    t_p11_window_u64 => l_u64;
    t_p11_window_i8 => l_i8;
    t_p11_window_i32 => l_i32;
    h_p11_whole_u8_a => b_u8_a;
    h_p11_whole_u8_b => b_u8_b;
    h_p11_whole_u8_c => b_u8_c;
    h_p11_whole_u8_d => b_u8_d;
    h_p11_whole_u16_a => b_u16_a;
    h_p11_whole_u16_b => b_u16_b;
    h_p11_whole_u32_a => b_u32_a;
    h_p11_whole_u64_a => b_u64_a;
    h_p11_whole_u128_a => b_u128_a;
    h_p11_whole_i8_a => b_i8_a;
    h_p11_whole_i8_b => b_i8_b;
    h_p11_whole_i8_c => b_i8_c;
    h_p11_whole_i16_a => b_i16_a;
    h_p11_whole_i32_a => b_i32_a;
    h_p11_whole_i64_a => b_i64_a;
    h_p11_whole_i128_a => b_i128_a;
    h_p11_whole_isize_a => b_isize_a;
    h_p11_far => far;
    h_p11_full_u8 => f_u8;
    h_p11_full_i8 => f_i8;
}
