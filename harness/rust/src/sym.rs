//! The harness API. In the encoded build the sym_* functions have no body: the
//! executor gives them their meaning. In the replay build native.rs does.
use std::ffi::CStr;
use std::os::raw::c_char;

extern "C" {
    fn sym_u8(n: *const c_char) -> u8;
    fn sym_u16(n: *const c_char) -> u16;
    fn sym_u32(n: *const c_char) -> u32;
    fn sym_u64(n: *const c_char) -> u64;
    fn sym_size(n: *const c_char, lo: usize, hi: usize) -> usize;
    fn sym_choose(n: *const c_char, k: usize) -> usize;
    fn sym_bytes(n: *const c_char, lo: usize, hi: usize, len: *mut usize) -> *mut u8;
    fn sym_vec(n: *const c_char, lo: usize, hi: usize, maxcap: usize, len: *mut usize, cap: *mut usize) -> *mut u8;
    fn sym_str(n: *const c_char, lo: usize, hi: usize, len: *mut usize) -> *const u8;
    fn sym_cstr(n: *const c_char, lo: usize, hi: usize, len: *mut usize) -> *mut c_char;
    fn sym_block(size: usize) -> *mut u8;
    fn sym_snapshot(p: *const u8, n: usize) -> *const u8;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, msg: *const c_char);
    fn sym_assert_eq(a: *const u8, b: *const u8, n: usize, msg: *const c_char);
    fn sym_utf8(p: *const u8, n: usize) -> bool;
    fn sym_has_zero(p: *const u8, n: usize) -> bool;
    fn sym_reach(label: *const c_char);
    fn sym_alloc_limit(n: usize, msg: *const c_char);
    fn sym_heap_size(p: *const u8) -> usize;
    fn sym_live() -> usize;
}

pub fn u8(n: &CStr) -> u8 {
    unsafe { sym_u8(n.as_ptr()) }
}
pub fn bool(n: &CStr) -> bool {
    let v = u8(n);
    assume(v < 2);
    v == 1
}
pub fn u16(n: &CStr) -> u16 {
    unsafe { sym_u16(n.as_ptr()) }
}
pub fn u32(n: &CStr) -> u32 {
    unsafe { sym_u32(n.as_ptr()) }
}
pub fn u64(n: &CStr) -> u64 {
    unsafe { sym_u64(n.as_ptr()) }
}
pub fn i32(n: &CStr) -> i32 {
    u32(n) as i32
}
pub fn i64(n: &CStr) -> i64 {
    u64(n) as i64
}
/// a length or position between lo and hi
pub fn size(n: &CStr, lo: usize, hi: usize) -> usize {
    unsafe { sym_size(n.as_ptr(), lo, hi) }
}
pub fn choose(n: &CStr, k: usize) -> usize {
    unsafe { sym_choose(n.as_ptr(), k) }
}
/// bytes that live outside the Rust heap, in a block of exactly their length
pub fn bytes(n: &CStr, lo: usize, hi: usize) -> &'static mut [u8] {
    let mut l = 0;
    unsafe {
        let p = sym_bytes(n.as_ptr(), lo, hi, &mut l);
        std::slice::from_raw_parts_mut(p, l)
    }
}
/// a Rust vector of any length and capacity
pub fn vec(n: &CStr, lo: usize, hi: usize, maxcap: usize) -> Vec<u8> {
    let (mut l, mut c) = (0, 0);
    unsafe {
        let p = sym_vec(n.as_ptr(), lo, hi, maxcap, &mut l, &mut c);
        Vec::from_raw_parts(p, l, c)
    }
}
/// valid UTF-8 text
pub fn str(n: &CStr, lo: usize, hi: usize) -> &'static str {
    let mut l = 0;
    unsafe {
        let p = sym_str(n.as_ptr(), lo, hi, &mut l);
        std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, l))
    }
}
/// a C string: l non-zero bytes and a zero (any bytes, not only UTF-8)
pub fn cstr(n: &CStr, lo: usize, hi: usize) -> (*mut c_char, usize) {
    let mut l = 0;
    let p = unsafe { sym_cstr(n.as_ptr(), lo, hi, &mut l) };
    (p, l)
}
/// a block of memory outside the Rust heap, contents unknown
pub fn block(size: usize) -> *mut u8 {
    unsafe { sym_block(size) }
}
pub fn snapshot(s: &[u8]) -> &'static [u8] {
    unsafe { std::slice::from_raw_parts(sym_snapshot(s.as_ptr(), s.len()), s.len()) }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn check(c: bool, msg: &CStr) {
    unsafe { sym_assert(c, msg.as_ptr()) }
}
pub fn check_eq(a: &[u8], b: &[u8], msg: &CStr) {
    check(a.len() == b.len(), msg);
    unsafe { sym_assert_eq(a.as_ptr(), b.as_ptr(), a.len(), msg.as_ptr()) }
}
pub fn check_eq_raw(a: *const u8, b: *const u8, n: usize, msg: &CStr) {
    unsafe { sym_assert_eq(a, b, n, msg.as_ptr()) }
}
pub fn utf8(s: &[u8]) -> bool {
    unsafe { sym_utf8(s.as_ptr(), s.len()) }
}
pub fn has_zero(s: &[u8]) -> bool {
    unsafe { sym_has_zero(s.as_ptr(), s.len()) }
}
pub fn reach(l: &CStr) {
    unsafe { sym_reach(l.as_ptr()) }
}
/// from here on no allocation may ask for more than n bytes
pub fn alloc_limit(n: usize, msg: &CStr) {
    unsafe { sym_alloc_limit(n, msg.as_ptr()) }
}
/// size of the Rust heap block at p
pub fn heap_size(p: *const u8) -> usize {
    unsafe { sym_heap_size(p) }
}
/// number of Rust heap blocks in use
pub fn live() -> usize {
    unsafe { sym_live() }
}
