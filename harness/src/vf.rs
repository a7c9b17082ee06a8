//! The interface between harnesses and whoever runs them.

extern "C" {
    fn vf_int(lo: i64, hi: i64) -> i64;
    fn vf_choice(n: u32) -> u32;
    fn vf_assume(b: bool);
    fn vf_assert(b: bool, p: *const u8, n: usize);
    fn vf_cover(p: *const u8, n: usize);
    fn vf_obs(p: *const u8, n: usize, v: i64);
    fn vf_concrete(v: i64) -> i64;
    fn vf_hint(v: i64);
    fn vf_div(v: i64, k: i64) -> i64;
    fn vf_alone_begin() -> bool;
    fn vf_alone_end(p: *mut i64, n: usize);
}

/// Any value in `lo..=hi`.
#[inline(always)]
pub fn int(lo: i64, hi: i64) -> i64 {
    unsafe { vf_int(lo, hi) }
}
/// One of `0..n`, explored as separate paths.
#[inline(always)]
pub fn choice(n: u32) -> u32 {
    unsafe { vf_choice(n) }
}
#[inline(always)]
pub fn assume(b: bool) {
    unsafe { vf_assume(b) }
}
#[inline(always)]
pub fn check(b: bool, id: &str) {
    unsafe { vf_assert(b, id.as_ptr(), id.len()) }
}
/// Marks a path; a harness whose expected marks are never reached is vacuous.
#[inline(always)]
pub fn cover(id: &str) {
    unsafe { vf_cover(id.as_ptr(), id.len()) }
}
/// A value compared between symbolic and native execution.
#[inline(always)]
pub fn obs(id: &str, v: i64) {
    unsafe { vf_obs(id.as_ptr(), id.len(), v) }
}
/// Complete case split on the value.
#[inline(always)]
pub fn concrete(v: i64) -> i64 {
    unsafe { vf_concrete(v) }
}
/// A term that later values are likely to equal (up to a constant): lets the
/// executor prove such equalities early.  No effect on what is checked.
#[inline(always)]
pub fn hint(v: i64) {
    unsafe { vf_hint(v) }
}
/// Floor division by a positive constant.
#[inline(always)]
pub fn fdiv(v: i64, k: i64) -> i64 {
    unsafe { vf_div(v, k) }
}
/// Remainder of floor division by a positive constant.
#[inline(always)]
pub fn fmod(v: i64, k: i64) -> i64 {
    v.wrapping_sub(fdiv(v, k).wrapping_mul(k))
}
/// What `f` gives in a program that has done nothing but what was done before
/// this call, without any effect on what follows: all statics, thread-local or
/// not, are as they were at program start during the call and are put back
/// after it.  (The native runner does this in a forked process.)
#[inline(always)]
pub fn alone(f: impl FnOnce() -> [i64; 4]) -> [i64; 4] {
    let mut r = [0; 4];
    if unsafe { vf_alone_begin() } {
        r = f();
    }
    unsafe { vf_alone_end(r.as_mut_ptr(), 4) };
    r
}
#[inline(always)]
pub fn i32_in(lo: i32, hi: i32) -> i32 {
    int(lo as i64, hi as i64) as i32
}
#[inline(always)]
pub fn any_i32() -> i32 {
    int(i32::MIN as i64, i32::MAX as i64) as i32
}
#[inline(always)]
pub fn any_i64() -> i64 {
    int(i64::MIN, i64::MAX)
}
#[inline(always)]
pub fn byte(lo: u8, hi: u8) -> u8 {
    int(lo as i64, hi as i64) as u8
}

/// Declares harness entry points and lists them for the native runner.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $( $(#[$m])* #[no_mangle] pub fn $name() $body )*
        pub static LIST: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}
