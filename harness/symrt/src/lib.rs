//! Interface between the harnesses and the symbolic executor (or the native replay shim).
extern "C" {
    fn __sym_var(width: u32) -> u64;
    fn __sym_range(span: u64) -> u64;
    fn __sym_bytes(p: *mut u8, n: u64);
    fn __sym_choose(n: u64) -> u64;
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_param(i: u32) -> u64;
    fn __sym_assume(c: bool);
    fn __sym_check(c: bool, p: *const u8, n: u64);
    fn __sym_region(p: *const u8, n: u64);
    fn __sym_cover(p: *const u8, n: u64);
    fn __sym_obs(v: u64);
    fn __sym_spawn(f: extern "C" fn(*mut u8), arg: *mut u8) -> u64;
    fn __sym_join(t: u64);
}
#[inline(always)] pub fn bits(w: u32) -> u64 { unsafe { __sym_var(w) } }
#[inline(always)] pub fn boolean() -> bool { bits(1) != 0 }
#[inline(always)] pub fn u8() -> u8 { bits(8) as u8 }
#[inline(always)] pub fn u16() -> u16 { bits(16) as u16 }
#[inline(always)] pub fn u32() -> u32 { bits(32) as u32 }
#[inline(always)] pub fn u64() -> u64 { bits(64) }
#[inline(always)] pub fn i32() -> i32 { bits(32) as i32 }
#[inline(always)] pub fn i64() -> i64 { bits(64) as i64 }
#[inline(always)] pub fn f32() -> f32 { f32::from_bits(bits(32) as u32) }
#[inline(always)] pub fn f64() -> f64 { f64::from_bits(bits(64)) }
/// symbolic integer in lo..=hi
#[inline(always)] pub fn range(lo: i64, hi: i64) -> i64 {
    lo.wrapping_add(unsafe { __sym_range(hi.wrapping_sub(lo) as u64) } as i64)
}
#[inline(always)] pub fn fill(b: &mut [u8]) { if !b.is_empty() { unsafe { __sym_bytes(b.as_mut_ptr(), b.len() as u64) } } }
/// enumerated (path-forking) choice among 0..n
#[inline(always)] pub fn choose(n: u64) -> u64 { unsafe { __sym_choose(n) } }
/// fork over every feasible value
#[inline(always)] pub fn concretize(v: u64) -> u64 { unsafe { __sym_concretize(v) } }
#[inline(always)] pub fn param(i: u32) -> u64 { unsafe { __sym_param(i) } }
#[inline(always)] pub fn assume(c: bool) { unsafe { __sym_assume(c) } }
#[inline(always)] pub fn check(c: bool, label: &'static str) { unsafe { __sym_check(c, label.as_ptr(), label.len() as u64) } }
#[inline(always)] pub fn region(label: &'static str) { unsafe { __sym_region(label.as_ptr(), label.len() as u64) } }
#[inline(always)] pub fn cover(label: &'static str) { unsafe { __sym_cover(label.as_ptr(), label.len() as u64) } }
#[inline(always)] pub fn obs(v: u64) { unsafe { __sym_obs(v) } }
#[inline(always)] pub fn spawn(f: extern "C" fn(*mut u8), arg: *mut u8) -> u64 { unsafe { __sym_spawn(f, arg) } }
#[inline(always)] pub fn join(t: u64) { unsafe { __sym_join(t) } }
