//! What a harness may ask of the symbolic engine. The same symbols are
//! defined by native/replay.c when a counterexample is replayed natively.
extern "C" {
    fn vsym_u64(bits: u32) -> u64;
    fn vsym_assume(c: bool);
    fn vsym_assert(c: bool, id: u32);
    fn vsym_cover(id: u32);
    fn vsym_covers(n: u32);
    fn vsym_concretize(v: u64) -> u64;
    fn vsym_expect_panic(on: bool);
    fn vsym_observe(v: u64);
    fn vsym_merge(on: bool);
}

/// A fresh symbolic value of `bits` bits (1..=64).
#[inline(always)]
pub fn any(bits: u32) -> u64 {
    unsafe { vsym_u64(bits) }
}
#[inline(always)]
pub fn any_bool() -> bool {
    any(1) != 0
}
/// A symbolic value below `n`.
#[inline(always)]
pub fn below(n: u64) -> u64 {
    let v = any(64 - (n - 1).leading_zeros().min(63));
    assume(v < n);
    v
}
#[inline(always)]
pub fn any128() -> u128 {
    (any(64) as u128) << 64 | any(64) as u128
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { vsym_assume(c) }
}
#[inline(always)]
pub fn assert(c: bool, id: u32) {
    unsafe { vsym_assert(c, id) }
}
#[inline(always)]
pub fn cover(id: u32) {
    unsafe { vsym_cover(id) }
}
#[inline(always)]
pub fn covers(n: u32) {
    unsafe { vsym_covers(n) }
}
/// Split the path on the value (one path per feasible value).
#[inline(always)]
pub fn conc(v: u64) -> u64 {
    unsafe { vsym_concretize(v) }
}
/// A panic between `expect_panic(true)` and `expect_panic(false)` ends the
/// path without being a violation.
#[inline(always)]
pub fn expect_panic(on: bool) {
    unsafe { vsym_expect_panic(on) }
}
/// Whether short branches are executed both ways and joined again instead of
/// splitting the path (how the path space is explored, not what is decided).
#[inline(always)]
pub fn merge(on: bool) {
    unsafe { vsym_merge(on) }
}
/// Recorded along the path; compared with what the native replay records.
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { vsym_observe(v) }
}

/// Assertion; its id is the source line, which the runner prints.
#[macro_export]
macro_rules! check {
    ($c:expr) => {
        $crate::v::assert($c, line!())
    };
}

/// `inst! { name => path::<...>; ... }`: one exported harness per line.
#[macro_export]
macro_rules! inst {
    ($($name:ident => $f:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $f() })*
    };
}

/// `dims! { "p02", f; 3 4, 5 0 }`: harness h_p02_f_3x4 = f::<3, 4> and so on.
#[macro_export]
macro_rules! dims {
    ($p:literal, $f:ident; $($x:literal $y:literal),* $(,)?) => {
        $(const _: () = {
            #[export_name = concat!("h_", $p, "_", stringify!($f), "_", $x, "x", $y)]
            pub extern "C" fn f() { $f::<$x, $y>() }
        };)*
    };
    (thorough $p:literal, $f:ident; $($x:literal $y:literal),* $(,)?) => {
        $(const _: () = {
            #[export_name = concat!("t_", $p, "_", stringify!($f), "_", $x, "x", $y)]
            pub extern "C" fn f() { $f::<$x, $y>() }
        };)*
    };
}

/// The situation is the listed known finding number `n`.
#[inline(always)]
pub fn known(n: u32) {
    cover(1000 + n)
}

/// `gdims! { "h" "p12", f; 3 4, 5 0 }`: harness h_p12_f_3x4 =
/// f::<3, 4, SIZE, WORDS> with the number of cells and of 32-bit words.
#[macro_export]
macro_rules! gdims {
    ($t:literal $p:literal, $f:ident; $($x:literal $y:literal),* $(,)?) => {
        $(const _: () = {
            #[export_name = concat!($t, "_", $p, "_", stringify!($f), "_", $x, "x", $y)]
            pub extern "C" fn f() {
                $f::<$x, $y, { ($x as usize + 1) * ($y as usize + 1) }, { (($x as usize + 1) * ($y as usize + 1) + 31) / 32 }>()
            }
        };)*
    };
}

/// What std's precompiled `RawVec<T>::grow_one` does for an element of
/// `SIZE` bytes aligned to `ALIGN`; check.py puts it in the place of the few
/// instances that std does not emit as IR.
#[inline(always)]
unsafe fn grow<const SIZE: usize, const ALIGN: usize>(v: *mut (usize, *mut u8)) {
    let (cap, ptr) = *v;
    let want = (cap * 2).max(cap + 1).max(if SIZE == 1 { 8 } else { 4 });
    let new = std::alloc::Layout::from_size_align_unchecked(want * SIZE, ALIGN);
    let p = if cap == 0 {
        std::alloc::alloc(new)
    } else {
        std::alloc::realloc(ptr, std::alloc::Layout::from_size_align_unchecked(cap * SIZE, ALIGN), want * SIZE)
    };
    *v = (want, p);
}
#[no_mangle]
pub unsafe extern "C" fn vmodel_grow_1(v: *mut (usize, *mut u8)) {
    grow::<1, 1>(v)
}
#[no_mangle]
pub unsafe extern "C" fn vmodel_grow_24(v: *mut (usize, *mut u8)) {
    grow::<24, 8>(v)
}
