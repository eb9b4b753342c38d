//! Interface to the symbolic executor (xsym) and, when linked natively, to replay.c.
mod ffi {
    extern "C" {
        pub fn sym_f64(id: u32, lo: f64, hi: f64) -> f64;
        pub fn sym_u64(id: u32, lo: u64, hi: u64) -> u64;
        pub fn sym_choose(id: u32, lo: u64, hi: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_check(c: bool, id: u32);
        pub fn sym_check_close(a: f64, b: f64, tol: f64, id: u32);
        pub fn sym_check_le(a: f64, b: f64, id: u32);
        pub fn sym_reach(id: u32);
        pub fn sym_obs_f64(id: u32, x: f64);
        pub fn sym_obs_u64(id: u32, x: u64);
        pub fn sym_heap_live() -> u64;
        pub fn sym_may_end();
        pub fn sym_is_native() -> u32;
        pub fn sym_readable(p: *const u8, n: usize);
    }
}
/// A real number anywhere in `lo..=hi`.
pub fn real(id: u32, lo: f64, hi: f64) -> f64 { unsafe { ffi::sym_f64(id, lo, hi) } }
/// An integer anywhere in `lo..=hi`.
pub fn int(id: u32, lo: u64, hi: u64) -> u64 { unsafe { ffi::sym_u64(id, lo, hi) } }
pub fn byte(id: u32) -> u8 { int(id, 0, 255) as u8 }
/// A concrete integer of `lo..=hi`: one path for each.
pub fn choose(id: u32, lo: u64, hi: u64) -> u64 { unsafe { ffi::sym_choose(id, lo, hi) } }
pub fn assume(c: bool) { unsafe { ffi::sym_assume(c) } }
pub fn check(c: bool, id: u32) { unsafe { ffi::sym_check(c, id) } }
/// |a - b| <= tol
pub fn close(a: f64, b: f64, tol: f64, id: u32) { unsafe { ffi::sym_check_close(a, b, tol, id) } }
/// a <= b
pub fn le(a: f64, b: f64, id: u32) { unsafe { ffi::sym_check_le(a, b, id) } }
/// From here on the code may end the process (panic, exit) without this being a fault.
pub fn may_end() { unsafe { ffi::sym_may_end() } }
pub fn reach(id: u32) { unsafe { ffi::sym_reach(id) } }
pub fn obs(id: u32, x: f64) { unsafe { ffi::sym_obs_f64(id, x) } }
pub fn obsi(id: u32, x: u64) { unsafe { ffi::sym_obs_u64(id, x) } }
pub fn heap_live() -> u64 { unsafe { ffi::sym_heap_live() } }
pub fn is_native() -> bool { unsafe { ffi::sym_is_native() != 0 } }
/// Every byte of the range must be allocated.
pub fn readable<T>(s: &[T]) { unsafe { ffi::sym_readable(s.as_ptr().cast(), std::mem::size_of_val(s)) } }
