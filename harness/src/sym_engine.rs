//! Symbolic back end: the functions below are intrinsics of the symbolic executor.
extern "C" {
    fn __sym_var(bits: u64) -> u64;
    fn __sym_choice(n: u64) -> u64;
    fn __sym_assume(c: bool);
    fn __sym_fail(p: *const u8, n: usize) -> !;
    fn __sym_cover(id: u64);
    fn __sym_emit(p: *const u8, n: usize);
    fn __sym_note(p: *const u8, n: usize);
    fn __sym_hash_mode(n: u64);
}
/// a fresh unconstrained value of the given width
pub fn var(bits: u64) -> u64 {
    unsafe { __sym_var(bits) }
}
/// a structural choice: every value below n is explored
pub fn choice(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    unsafe { __sym_choice(n as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}
pub fn fail(m: &str) -> ! {
    unsafe { __sym_fail(m.as_ptr(), m.len()) }
}
pub fn cover(id: u64) {
    unsafe { __sym_cover(id) }
}
/// output compared with the native run of the same path
pub fn emit(b: &[u8]) {
    unsafe { __sym_emit(b.as_ptr(), b.len()) }
}
pub fn note(s: &str) {
    unsafe { __sym_note(s.as_ptr(), s.len()) }
}
/// iteration order of hash maps: 0 = all keys collide, 1..99 = n-th order by key length, 100.. = pseudo-random order (concrete keys only)
pub fn hash_mode(n: u64) {
    unsafe { __sym_hash_mode(n) }
}
pub const NATIVE: bool = false;
