//! All values of the 12 integer types, into and out of each of the 11 bounded types, with the
//! bounds of the type itself, one-value bounds at both ends and inside, bounds around zero, and
//! bounds far from zero on either side (listed at the end of p10.rs).
use crate::v;
use sqrid::*;

/// a mathematical integer: sign and magnitude
#[derive(Clone, Copy, PartialEq, Eq)]
struct Z(bool, u128);
impl Z {
    #[inline(always)]
    fn le(self, o: Z) -> bool {
        match (self.0, o.0) {
            (false, false) => self.1 <= o.1,
            (true, true) => self.1 >= o.1,
            (n, _) => n,
        }
    }
}
trait Int: Copy {
    fn any() -> Self;
    fn z(self) -> Z;
}
macro_rules! unsigned {
    ($($t:ty)*) => { $(impl Int for $t {
        #[inline(always)]
        fn any() -> Self { if <$t>::BITS == 128 { v::any128() as $t } else { v::any(<$t>::BITS) as $t } }
        #[inline(always)]
        fn z(self) -> Z { Z(false, self as u128) }
    })* };
}
macro_rules! signed {
    ($($t:ty)*) => { $(impl Int for $t {
        #[inline(always)]
        fn any() -> Self { if <$t>::BITS == 128 { v::any128() as $t } else { v::any(<$t>::BITS) as $t } }
        #[inline(always)]
        fn z(self) -> Z { Z(self < 0, (self as i128).unsigned_abs()) }
    })* };
}
unsigned!(u8 u16 u32 u64 u128 usize);
signed!(i8 i16 i32 i64 i128 isize);

macro_rules! bounded {
    ($name:ident, $b:ident, $t:ty) => {
        mod $name {
            use super::*;
            fn from<const A: $t, const B: $t, S: Int>()
            where
                $b<A, B>: TryFrom<S, Error = Error>,
            {
                let s = S::any();
                let fits = A.z().le(s.z()) && s.z().le(B.z());
                match <$b<A, B>>::try_from(s) {
                    Ok(b) => {
                        v::cover(0);
                        check!(fits);
                        check!(b.into_inner().z() == s.z());
                    }
                    Err(e) => {
                        v::cover(1);
                        check!(!fits);
                        check!(e == Error::OutOfBounds);
                    }
                }
            }
            pub fn convert<const A: $t, const B: $t>() {
                match v::conc(v::below(12)) {
                    0 => from::<A, B, u8>(),
                    1 => from::<A, B, u16>(),
                    2 => from::<A, B, u32>(),
                    3 => from::<A, B, u64>(),
                    4 => from::<A, B, u128>(),
                    5 => from::<A, B, usize>(),
                    6 => from::<A, B, i8>(),
                    7 => from::<A, B, i16>(),
                    8 => from::<A, B, i32>(),
                    9 => from::<A, B, i64>(),
                    10 => from::<A, B, i128>(),
                    _ => from::<A, B, isize>(),
                }
            }
            pub fn new<const A: $t, const B: $t>() {
                v::covers(2);
                let s = <$t as Int>::any();
                let fits = A <= s && s <= B;
                if v::conc(v::any(1)) == 1 {
                    v::cover(0);
                    match <$b<A, B>>::new(s) {
                        Ok(b) => {
                            check!(fits && b.into_inner() == s && b.0 == s);
                            check!(*BoundedInt::as_ref(&b) == s && BoundedInt::into_inner(b) == s);
                            check!(<$t>::from(b) == s);
                            // back to usize
                            let u = usize::try_from(b);
                            if s.z().0 || s.z().1 > usize::MAX as u128 {
                                check!(u == Err(Error::OutOfBounds));
                            } else {
                                check!(u == Ok(s as usize));
                            }
                        }
                        Err(e) => check!(!fits && e == Error::OutOfBounds),
                    }
                } else {
                    v::cover(1);
                    v::expect_panic(!fits);
                    let b = <$b<A, B>>::new_unwrap(s);
                    check!(fits && b.into_inner() == s);
                }
            }
            fn one<const A: $t, const B: $t>() -> $b<A, B> {
                let s = <$t as Int>::any();
                v::assume(A <= s && s <= B);
                $b(s)
            }
            pub fn arith<const A: $t, const B: $t>() {
                let (a, b) = (one::<A, B>(), one::<A, B>());
                let (x, y) = (a.0, b.0);
                // by widening by hand: the exact result of x+y and x-y, if it fits
                let (s, over) = x.overflowing_add(y);
                let sum = if over || s < A || s > B { None } else { Some(s) };
                let (s, over) = x.overflowing_sub(y);
                let dif = if over || s < A || s > B { None } else { Some(s) };
                check!(a.checked_add(b).map(|r| r.0) == sum);
                check!(a.checked_sub(b).map(|r| r.0) == dif);
                check!(a.inc().map(|r| r.0) == if x < B { Some(x + 1) } else { None });
                check!(a.dec().map(|r| r.0) == if x > A { Some(x - 1) } else { None });
                check!((a == b) == (x == y) && (a < b) == (x < y) && a.cmp(&b) == x.cmp(&y));
                check!(<$b<A, B> as BoundedInt>::MIN.0 == A && <$b<A, B> as BoundedInt>::MAX.0 == B);
            }
            pub fn default<const A: $t, const B: $t>() {
                v::covers(3);
                match v::conc(v::below(3)) {
                    0 => {
                        v::cover(0);
                        let d = <$b<A, B>>::default().0;
                        if d < A || d > B {
                            v::known(1);
                        } else {
                            check!(d == 0);
                        }
                    }
                    1 => {
                        v::cover(1);
                        let x = v::any_bool();
                        let r = <$b<A, B>>::from(x).0;
                        if r < A || r > B {
                            v::known(2);
                        } else {
                            check!(r == x as $t);
                        }
                    }
                    _ => {
                        v::cover(2);
                        let r = <$b<A, B> as BoundedInt>::one().0;
                        if r < A || r > B {
                            v::known(2);
                        } else {
                            check!(r == 1);
                        }
                    }
                }
            }
        }
    };
}
bounded!(m_u8, BoundedU8, u8);
bounded!(m_u16, BoundedU16, u16);
bounded!(m_u32, BoundedU32, u32);
bounded!(m_u64, BoundedU64, u64);
bounded!(m_u128, BoundedU128, u128);
bounded!(m_i8, BoundedI8, i8);
bounded!(m_i16, BoundedI16, i16);
bounded!(m_i32, BoundedI32, i32);
bounded!(m_i64, BoundedI64, i64);
bounded!(m_i128, BoundedI128, i128);
bounded!(m_isize, BoundedIsize, isize);

macro_rules! builtin {
    ($name:ident, $t:ty) => {
        /// the integer type itself is a bounded integer
        fn $name() {
            type T = $t;
            let (x, y) = (<T as Int>::any(), <T as Int>::any());
            check!(<T as BoundedInt>::MIN == T::MIN && <T as BoundedInt>::MAX == T::MAX);
            check!(BoundedInt::into_inner(x) == x && *BoundedInt::as_ref(&x) == x);
            let (s, over) = x.overflowing_add(y);
            check!(BoundedInt::checked_add(x, y) == if over { None } else { Some(s) });
            let (s, over) = x.overflowing_sub(y);
            check!(BoundedInt::checked_sub(x, y) == if over { None } else { Some(s) });
            check!(x.inc() == if x < T::MAX { Some(x + 1) } else { None });
            check!(x.dec() == if x > T::MIN { Some(x - 1) } else { None });
        }
    };
}
builtin!(b_u8, u8);
builtin!(b_u16, u16);
builtin!(b_u32, u32);
builtin!(b_u64, u64);
builtin!(b_u128, u128);
builtin!(b_usize, usize);
builtin!(b_i8, i8);
builtin!(b_i16, i16);
builtin!(b_i32, i32);
builtin!(b_i64, i64);
builtin!(b_i128, i128);
builtin!(b_isize, isize);

macro_rules! at {
    ($pre:literal $m:ident $t:ty; $($tag:ident $a:expr, $b:expr;)*) => { $(const _: () = {
        #[export_name = concat!($pre, "_p10_convert_", stringify!($m), "_", stringify!($tag))]
        pub extern "C" fn c() { $m::convert::<{ $a }, { $b }>() }
        #[export_name = concat!($pre, "_p10_new_", stringify!($m), "_", stringify!($tag))]
        pub extern "C" fn n() { $m::new::<{ $a }, { $b }>() }
        #[export_name = concat!($pre, "_p10_arith_", stringify!($m), "_", stringify!($tag))]
        pub extern "C" fn a() { $m::arith::<{ $a }, { $b }>() }
        #[export_name = concat!($pre, "_p10_default_", stringify!($m), "_", stringify!($tag))]
        pub extern "C" fn d() { $m::default::<{ $a }, { $b }>() }
    };)* };
}
macro_rules! all_u {
    ($m:ident $t:ident) => {
        at! { "h" $m $t; full $t::MIN, $t::MAX; small 0, 5; inner 3, 9; high $t::MAX - 3, $t::MAX; top $t::MAX, $t::MAX; }
        at! { "t" $m $t; zero 0, 0; one 1, 1; upper $t::MAX / 2 + 1, $t::MAX; lower 0, $t::MAX / 2; butone 1, $t::MAX - 1; }
    };
}
macro_rules! all_i {
    ($m:ident $t:ident) => {
        at! { "h" $m $t; full $t::MIN, $t::MAX; around -3, 4; inner 3, 9; neg -9, -3; low $t::MIN, $t::MIN + 2; high $t::MAX - 3, $t::MAX; }
        at! { "t" $m $t; zero 0, 0; bottom $t::MIN, $t::MIN; top $t::MAX, $t::MAX; nonneg 0, $t::MAX; negative $t::MIN, -1; butone $t::MIN + 1, $t::MAX - 1; }
    };
}
all_u!(m_u8 u8);
all_u!(m_u16 u16);
all_u!(m_u32 u32);
all_u!(m_u64 u64);
all_u!(m_u128 u128);
all_i!(m_i8 i8);
all_i!(m_i16 i16);
all_i!(m_i32 i32);
all_i!(m_i64 i64);
all_i!(m_i128 i128);
all_i!(m_isize isize);
inst! {
    h_p10_builtin_u8 => b_u8;
    h_p10_builtin_u16 => b_u16;
    h_p10_builtin_u32 => b_u32;
    h_p10_builtin_u64 => b_u64;
    h_p10_builtin_u128 => b_u128;
    h_p10_builtin_usize => b_usize;
    h_p10_builtin_i8 => b_i8;
    h_p10_builtin_i16 => b_i16;
    h_p10_builtin_i32 => b_i32;
    h_p10_builtin_i64 => b_i64;
    h_p10_builtin_i128 => b_i128;
    h_p10_builtin_isize => b_isize;
}
