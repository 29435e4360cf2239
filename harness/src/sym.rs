//! Symbolic-input interface; implemented by the executor, or by the replayer natively.
extern "C" {
    fn sym_byte(id: u32, lo: u32, hi: u32) -> u8;
    fn sym_u32(id: u32, lo: u32, hi: u32) -> u32;
    fn sym_assume(c: u32);
    fn sym_assert(c: u32, code: u32);
    fn sym_cover(id: u32);
    fn sym_fork(v: u32) -> u32;
    fn sym_out(v: u32);
    fn sym_param() -> u32;
    fn sym_panic_ok(v: u32);
}
/// a symbolic byte in lo..=hi
pub fn byte(id: u32, lo: u32, hi: u32) -> u8 {
    unsafe { sym_byte(id, lo, hi) }
}
/// a symbolic u32 in lo..=hi
pub fn word(id: u32, lo: u32, hi: u32) -> u32 {
    unsafe { sym_u32(id, lo, hi) }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c as u32) }
}
pub fn check(c: bool, code: u32) {
    unsafe { sym_assert(c as u32, code) }
}
pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
}
/// make a symbolic value concrete (one path per feasible value)
pub fn fork(v: u32) -> u32 {
    unsafe { sym_fork(v) }
}
pub fn out(v: u32) {
    unsafe { sym_out(v) }
}
pub fn param() -> u32 {
    unsafe { sym_param() }
}
pub fn panic_ok(v: bool) {
    unsafe { sym_panic_ok(v as u32) }
}
