//! Properties C15 to C17: the C interface, called as a C program calls it.
use crate::rust::*;
use crate::sym;
use polyglot_c::decoder::*;
use polyglot_c::encoder::*;
use polyglot_c::types::{Buffer, Kind, Status};
use std::os::raw::c_char;
use std::ptr::null_mut;

/// the status a C caller passes; it starts with a value no call leaves there
struct St(*mut u8);
const PASS: u8 = 0;
const FAIL: u8 = 1;
const NULLP: u8 = 2;
impl St {
    fn new() -> St {
        let p = sym::block(1);
        unsafe { *p = 0xaa };
        St(p)
    }
    fn p(&self) -> *mut Status {
        unsafe { *self.0 = 0xaa };
        self.0 as *mut Status
    }
    fn get(&self) -> u8 {
        unsafe { *self.0 }
    }
    fn passed(&self) {
        sym::check(self.get() == PASS, c"a call that succeeds reports the pass status");
    }
    fn failed(&self) {
        sym::check(self.get() == FAIL, c"a call that fails reports the fail status");
    }
    fn null(&self) {
        sym::check(self.get() == NULLP, c"a null pointer is reported by the null-pointer status");
    }
}
fn k(n: &std::ffi::CStr) -> u8 {
    let v = sym::u8(n);
    sym::assume(v <= 16);
    v
}
fn kd(k: u8) -> Kind {
    unsafe { std::mem::transmute(k) }
}
fn buf(b: *mut Buffer) -> (*mut u8, u32) {
    unsafe { (*(b as *const *mut u8), *((b as *const u8).add(8) as *const u32)) }
}

// ------------------------------------------------------------------ C15, encoding
fn encoder(s: &St, head: &mut [u8]) -> (*mut Encoder, usize) {
    let e = polyglot_new_encoder(s.p());
    s.passed();
    sym::check(!e.is_null(), c"a new encoder is not null");
    if sym::choose(c"first", 2) == 0 {
        return (e, 0);
    }
    // an encoder that already holds a value
    let v = sym::u32(c"before");
    polyglot_encode_u32(s.p(), e, v);
    s.passed();
    head[0] = 10;
    (e, varint(head, 1, v as u64))
}
/// size and buffer report head followed by payload
fn copied(s: &St, e: *mut Encoder, head: &[u8], payload: &[u8]) {
    let n = head.len() + payload.len();
    let got = polyglot_encoder_size(s.p(), e);
    s.passed();
    sym::check(got as usize == n, c"the size is that of the canonical bytes");
    let room = sym::size(c"room", 0, (1 << 32) - 1);
    let b = sym::block(room);
    polyglot_encoder_buffer(s.p(), e, b, room as u32);
    if room < n {
        s.failed();
        sym::reach(c"small");
    } else {
        s.passed();
        let b = unsafe { std::slice::from_raw_parts(b, n) };
        sym::check_eq(&b[..head.len()], head, c"the buffer call copies exactly the canonical bytes");
        if !payload.is_empty() {
            sym::check_eq(&b[head.len()..], payload, c"the buffer call copies exactly the canonical bytes (payload)");
        }
        sym::reach(c"end");
    }
    polyglot_free_encoder(e);
}
macro_rules! enc {
    ($h:ident, $f:ident, $v:expr, |$x:ident, $o:ident, $at:ident| $w:expr) => {
        #[no_mangle]
        pub extern "C" fn $h() {
            let s = St::new();
            let mut o = [0u8; 24];
            let (e, n) = encoder(&s, &mut o);
            let $x = $v;
            $f(s.p(), e, $x);
            s.passed();
            let $o = &mut o;
            let $at = n;
            let l: usize = $w;
            copied(&s, e, &o[..l], &[]);
        }
    };
}
fn put(o: &mut [u8], at: usize, k: u8, v: u64) -> usize {
    o[at] = k;
    varint(o, at + 1, v)
}
fn big(o: &mut [u8], at: usize, k: u8, v: u64, n: usize) -> usize {
    o[at] = k;
    for i in 0..n {
        o[at + 1 + i] = (v >> (8 * (n - 1 - i))) as u8;
    }
    at + n + 1
}
enc!(h_c15_enc_bool, polyglot_encode_bool, sym::bool(c"v"), |v, o, n| { o[n] = 7; o[n + 1] = if v { 1 } else { 0 }; n + 2 });
enc!(h_c15_enc_u8, polyglot_encode_u8, sym::u8(c"v"), |v, o, n| { o[n] = 8; o[n + 1] = v; n + 2 });
enc!(h_c15_enc_u16, polyglot_encode_u16, sym::u16(c"v"), |v, o, n| put(o, n, 9, v as u64));
enc!(h_c15_enc_u32, polyglot_encode_u32, sym::u32(c"v"), |v, o, n| put(o, n, 10, v as u64));
enc!(h_c15_enc_u64, polyglot_encode_u64, sym::u64(c"v"), |v, o, n| put(o, n, 11, v));
enc!(h_c15_enc_i32, polyglot_encode_i32, sym::i32(c"v"), |v, o, n| put(o, n, 12, zig32(v)));
enc!(h_c15_enc_i64, polyglot_encode_i64, sym::i64(c"v"), |v, o, n| put(o, n, 13, zig64(v)));
enc!(h_c15_enc_f32, polyglot_encode_f32, f32::from_bits(sym::u32(c"v")), |v, o, n| big(o, n, 14, v.to_bits() as u64, 4));
enc!(h_c15_enc_f64, polyglot_encode_f64, f64::from_bits(sym::u64(c"v")), |v, o, n| big(o, n, 15, v.to_bits(), 8));
#[no_mangle]
pub extern "C" fn h_c15_enc_none() {
    let s = St::new();
    let mut o = [0u8; 24];
    let (e, n) = encoder(&s, &mut o);
    polyglot_encode_none(s.p(), e);
    s.passed();
    o[n] = 0;
    copied(&s, e, &o[..n + 1], &[]);
}
#[no_mangle]
pub extern "C" fn h_c15_enc_empty() {
    let s = St::new();
    let mut o = [0u8; 24];
    let (e, n) = encoder(&s, &mut o);
    copied(&s, e, &o[..n], &[]);
}
#[no_mangle]
pub extern "C" fn h_c15_enc_array() {
    let s = St::new();
    let mut o = [0u8; 24];
    let (e, n) = encoder(&s, &mut o);
    let (v, a) = (sym::u32(c"v"), k(c"k"));
    polyglot_encode_array(s.p(), e, v, kd(a));
    s.passed();
    o[n] = 1;
    o[n + 1] = a;
    let l = put(&mut o, n + 2, 10, v as u64);
    copied(&s, e, &o[..l], &[]);
}
#[no_mangle]
pub extern "C" fn h_c15_enc_map() {
    let s = St::new();
    let mut o = [0u8; 24];
    let (e, n) = encoder(&s, &mut o);
    let (v, a, b) = (sym::u32(c"v"), k(c"k"), k(c"l"));
    polyglot_encode_map(s.p(), e, v, kd(a), kd(b));
    s.passed();
    o[n] = 2;
    o[n + 1] = a;
    o[n + 2] = b;
    let l = put(&mut o, n + 3, 10, v as u64);
    copied(&s, e, &o[..l], &[]);
}
const PAY: usize = (1 << 32) - 32;
#[no_mangle]
pub extern "C" fn h_c15_enc_bytes() {
    let s = St::new();
    let mut o = [0u8; 24];
    let (e, n) = encoder(&s, &mut o);
    let v = sym::bytes(c"v", 0, PAY);
    polyglot_encode_bytes(s.p(), e, v.as_mut_ptr(), v.len() as u32);
    s.passed();
    o[n] = 4;
    let l = put(&mut o, n + 1, 10, v.len() as u64);
    copied(&s, e, &o[..l], v);
}
fn text(n: usize, o: &mut [u8], e: *mut Encoder, s: &St, p: *mut c_char, len: usize, kinds: &[u8]) {
    let v = unsafe { std::slice::from_raw_parts(p as *const u8, len) };
    if sym::utf8(v) {
        s.passed();
        o[n..n + kinds.len()].copy_from_slice(kinds);
        let l = put(o, n + kinds.len(), 10, len as u64);
        copied(s, e, &o[..l], v);
    } else {
        s.failed();
        let got = polyglot_encoder_size(s.p(), e);
        s.passed();
        sym::check(got as usize == n, c"a failed encode appends nothing");
        polyglot_free_encoder(e);
        sym::reach(c"text");
    }
}
#[no_mangle]
pub extern "C" fn h_c15_enc_string() {
    let s = St::new();
    let mut o = [0u8; 24];
    let (e, n) = encoder(&s, &mut o);
    let (p, len) = sym::cstr(c"v", 0, PAY);
    polyglot_encode_string(s.p(), e, p);
    text(n, &mut o, e, &s, p, len, &[5]);
}
#[no_mangle]
pub extern "C" fn h_c15_enc_error() {
    let s = St::new();
    let mut o = [0u8; 24];
    let (e, n) = encoder(&s, &mut o);
    let (p, len) = sym::cstr(c"v", 0, PAY);
    polyglot_encode_error(s.p(), e, p);
    text(n, &mut o, e, &s, p, len, &[6, 5]);
}

// ------------------------------------------------------------------ C15, decoding
fn decoder(s: &St) -> (*mut Decoder, &'static [u8]) {
    let b = sym::bytes(c"in", 0, (1 << 32) - 1);
    let d = polyglot_new_decoder(s.p(), b.as_mut_ptr(), b.len() as u32);
    s.passed();
    sym::check(!d.is_null(), c"a new decoder is not null");
    (d, b)
}
macro_rules! dec {
    ($h:ident, $kind:expr, |$s:ident, $d:ident| $call:expr, |$b:ident, $p:ident| $r:expr, $eq:expr, $zero:expr) => {
        #[no_mangle]
        pub extern "C" fn $h() {
            let $s = &St::new();
            let ($d, $b) = decoder($s);
            let mut p = 0;
            let mut more = true;
            let mut i = 0;
            // twice: the second call shows what the first consumed
            while i < 2 && more {
                let x = $call;
                let $p = p;
                match $r {
                    Some((v, end)) => {
                        $s.passed();
                        sym::check($eq(x, v), c"the value returned is the one encoded");
                        sym::reach(c"ok");
                        p = end;
                    }
                    None => {
                        $s.failed();
                        sym::check($zero(x), c"a failed decode returns the zero value");
                        sym::reach(c"err");
                        // only a value of another kind leaves the position known
                        more = p < $b.len() && $b[p] != $kind;
                    }
                }
                i += 1;
            }
            polyglot_free_decoder($d);
        }
    };
}
dec!(h_c15_dec_u8, 8, |s, d| polyglot_decode_u8(s.p(), d), |b, p| ru8(b, p), |a, b| a == b, |a| a == 0);
dec!(h_c15_dec_u16, 9, |s, d| polyglot_decode_u16(s.p(), d), |b, p| ru16(b, p), |a, b| a == b, |a| a == 0);
dec!(h_c15_dec_u32, 10, |s, d| polyglot_decode_u32(s.p(), d), |b, p| ru32(b, p), |a, b| a == b, |a| a == 0);
dec!(h_c15_dec_u64, 11, |s, d| polyglot_decode_u64(s.p(), d), |b, p| ru64(b, p), |a, b| a == b, |a| a == 0);
dec!(h_c15_dec_i32, 12, |s, d| polyglot_decode_i32(s.p(), d), |b, p| ri32(b, p), |a, b| a == b, |a| a == 0);
dec!(h_c15_dec_i64, 13, |s, d| polyglot_decode_i64(s.p(), d), |b, p| ri64(b, p), |a, b| a == b, |a| a == 0);
dec!(h_c15_dec_bool, 7, |s, d| polyglot_decode_bool(s.p(), d), |b, p| rbool(b, p), |a, b| a == b, |a: bool| !a);
dec!(h_c15_dec_f32, 14, |s, d| polyglot_decode_f32(s.p(), d), |b, p| rfixed(b, p, 14, 4), |a: f32, b: u64| a.to_bits() as u64 == b, |a: f32| a.to_bits() == 0);
dec!(h_c15_dec_f64, 15, |s, d| polyglot_decode_f64(s.p(), d), |b, p| rfixed(b, p, 15, 8), |a: f64, b: u64| a.to_bits() == b, |a: f64| a.to_bits() == 0);
#[no_mangle]
pub extern "C" fn h_c15_dec_none() {
    let s = St::new();
    let (d, b) = decoder(&s);
    let mut i = 0;
    while i < 2 {
        let x = polyglot_decode_none(s.p(), d);
        sym::check(s.get() <= FAIL, c"every call sets the status");
        if x {
            s.passed();
            sym::reach(c"ok");
        } else {
            sym::reach(c"err");
        }
        // the first probe consumes its byte only if it is the none kind
        sym::check(x == (b.len() > i && b[0] == 0 && b[i] == 0), c"the none probe reports a none value");
        i += 1;
    }
    polyglot_free_decoder(d);
}
#[no_mangle]
pub extern "C" fn h_c15_dec_array() {
    let s = St::new();
    let (d, b) = decoder(&s);
    let a = k(c"k");
    let x = polyglot_decode_array(s.p(), d, kd(a));
    match rarray(b, 0, a) {
        Some((v, end)) => {
            s.passed();
            sym::check(x as usize == v, c"the value returned is the one encoded");
            let y = polyglot_decode_u8(s.p(), d);
            sym::check((s.get() == PASS, y) == ru8(b, end).map_or((false, 0), |r| (true, r.0)), c"exactly the encoding is consumed");
            sym::reach(c"ok");
        }
        None => {
            s.failed();
            sym::check(x == 0, c"a failed decode returns the zero value");
            sym::reach(c"err");
        }
    }
    polyglot_free_decoder(d);
}
#[no_mangle]
pub extern "C" fn h_c15_dec_map() {
    let s = St::new();
    let (d, b) = decoder(&s);
    let (a, l) = (k(c"k"), k(c"l"));
    let x = polyglot_decode_map(s.p(), d, kd(a), kd(l));
    match rmap(b, 0, a, l) {
        Some((v, end)) => {
            s.passed();
            sym::check(x as usize == v, c"the value returned is the one encoded");
            let y = polyglot_decode_u8(s.p(), d);
            sym::check((s.get() == PASS, y) == ru8(b, end).map_or((false, 0), |r| (true, r.0)), c"exactly the encoding is consumed");
            sym::reach(c"ok");
        }
        None => {
            s.failed();
            sym::check(x == 0, c"a failed decode returns the zero value");
            sym::reach(c"err");
        }
    }
    polyglot_free_decoder(d);
}
#[no_mangle]
pub extern "C" fn h_c15_dec_bytes() {
    let s = St::new();
    let (d, b) = decoder(&s);
    let x = polyglot_decode_bytes(s.p(), d);
    match rblob(b, 0, 4) {
        Some((at, end)) => {
            s.passed();
            sym::check(!x.is_null(), c"a decoded buffer is not null");
            let (p, n) = buf(x);
            sym::check(n as usize == end - at, c"the value returned is the one encoded (length)");
            if n > 0 {
                sym::check_eq_raw(p, b[at..end].as_ptr(), n as usize, c"the value returned is the one encoded");
            }
            let y = polyglot_decode_u8(s.p(), d);
            sym::check((s.get() == PASS, y) == ru8(b, end).map_or((false, 0), |r| (true, r.0)), c"exactly the encoding is consumed");
            polyglot_free_decode_bytes(x);
            sym::reach(c"ok");
        }
        None => {
            s.failed();
            sym::check(x.is_null(), c"a failed decode returns the zero value");
            sym::reach(c"err");
        }
    }
    polyglot_free_decoder(d);
}
fn ctext(s: &St, x: *mut c_char, b: &[u8], e: Option<(usize, usize)>, free: extern "C" fn(*mut c_char)) {
    // text with a zero byte is no C string
    let good = match e {
        Some((a, z)) => sym::utf8(&b[a..z]) && !sym::has_zero(&b[a..z]),
        None => false,
    };
    if let (true, Some((a, z))) = (good, e) {
        s.passed();
        sym::check(!x.is_null(), c"a decoded string is not null");
        let n = z - a;
        if n > 0 {
            sym::check_eq_raw(x as *const u8, b[a..z].as_ptr(), n, c"the value returned is the one encoded");
        }
        sym::check(unsafe { *x.add(n) } == 0, c"a decoded string ends with a zero byte");
        free(x);
        sym::reach(c"ok");
    } else {
        s.failed();
        sym::check(x.is_null(), c"a failed decode returns the zero value");
        sym::reach(c"err");
    }
}
#[no_mangle]
pub extern "C" fn h_c15_dec_string() {
    let s = St::new();
    let (d, b) = decoder(&s);
    let x = polyglot_decode_string(s.p(), d);
    ctext(&s, x, b, rblob(b, 0, 5), polyglot_free_decode_string);
    polyglot_free_decoder(d);
}
#[no_mangle]
pub extern "C" fn h_c15_dec_error() {
    let s = St::new();
    let (d, b) = decoder(&s);
    let x = polyglot_decode_error(s.p(), d);
    let e = match rkind(b, 0, 6) {
        Some(q) => rblob(b, q, 5),
        None => None,
    };
    ctext(&s, x, b, e, polyglot_free_decode_error);
    polyglot_free_decoder(d);
}

// ------------------------------------------------------------------ C16
macro_rules! nul {
    ($h:ident, |$s:ident| $call:expr, $zero:expr) => {
        #[no_mangle]
        pub extern "C" fn $h() {
            let $s = &St::new();
            let x = $call;
            $s.null();
            sym::check($zero(x), c"a call given a null pointer returns the zero value");
            sym::reach(c"end");
        }
    };
}
fn some() -> *mut Encoder {
    let s = St::new();
    polyglot_new_encoder(s.p())
}
fn unchanged(s: &St, e: *mut Encoder) {
    s.null();
    let n = polyglot_encoder_size(s.p(), e);
    s.passed();
    sym::check(n == 0, c"a call given a null pointer encodes nothing");
    polyglot_free_encoder(e);
    sym::reach(c"end");
}
nul!(h_c16_size, |s| polyglot_encoder_size(s.p(), null_mut()), |x| x == 0);
nul!(h_c16_buffer_enc, |s| polyglot_encoder_buffer(s.p(), null_mut(), sym::block(4), 4), |_| true);
nul!(h_c16_buffer_both, |s| polyglot_encoder_buffer(s.p(), null_mut(), null_mut(), sym::u32(c"n")), |_| true);
nul!(h_c16_enc_none, |s| polyglot_encode_none(s.p(), null_mut()), |_| true);
nul!(h_c16_enc_array, |s| polyglot_encode_array(s.p(), null_mut(), sym::u32(c"n"), kd(k(c"k"))), |_| true);
nul!(h_c16_enc_map, |s| polyglot_encode_map(s.p(), null_mut(), sym::u32(c"n"), kd(k(c"k")), kd(k(c"l"))), |_| true);
nul!(h_c16_enc_bytes, |s| polyglot_encode_bytes(s.p(), null_mut(), sym::block(4), 4), |_| true);
nul!(h_c16_enc_bytes_both, |s| polyglot_encode_bytes(s.p(), null_mut(), null_mut(), sym::u32(c"n")), |_| true);
nul!(h_c16_enc_string, |s| polyglot_encode_string(s.p(), null_mut(), sym::cstr(c"t", 0, 100).0), |_| true);
nul!(h_c16_enc_string_both, |s| polyglot_encode_string(s.p(), null_mut(), null_mut()), |_| true);
nul!(h_c16_enc_error, |s| polyglot_encode_error(s.p(), null_mut(), sym::cstr(c"t", 0, 100).0), |_| true);
nul!(h_c16_enc_error_both, |s| polyglot_encode_error(s.p(), null_mut(), null_mut()), |_| true);
nul!(h_c16_enc_bool, |s| polyglot_encode_bool(s.p(), null_mut(), sym::bool(c"v")), |_| true);
nul!(h_c16_enc_u8, |s| polyglot_encode_u8(s.p(), null_mut(), sym::u8(c"v")), |_| true);
nul!(h_c16_enc_u16, |s| polyglot_encode_u16(s.p(), null_mut(), sym::u16(c"v")), |_| true);
nul!(h_c16_enc_u32, |s| polyglot_encode_u32(s.p(), null_mut(), sym::u32(c"v")), |_| true);
nul!(h_c16_enc_u64, |s| polyglot_encode_u64(s.p(), null_mut(), sym::u64(c"v")), |_| true);
nul!(h_c16_enc_i32, |s| polyglot_encode_i32(s.p(), null_mut(), sym::i32(c"v")), |_| true);
nul!(h_c16_enc_i64, |s| polyglot_encode_i64(s.p(), null_mut(), sym::i64(c"v")), |_| true);
nul!(h_c16_enc_f32, |s| polyglot_encode_f32(s.p(), null_mut(), f32::from_bits(sym::u32(c"v"))), |_| true);
nul!(h_c16_enc_f64, |s| polyglot_encode_f64(s.p(), null_mut(), f64::from_bits(sym::u64(c"v"))), |_| true);
nul!(h_c16_new_decoder, |s| polyglot_new_decoder(s.p(), null_mut(), sym::u32(c"n")), |x: *mut Decoder| x.is_null());
nul!(h_c16_dec_none, |s| polyglot_decode_none(s.p(), null_mut()), |x: bool| !x);
nul!(h_c16_dec_array, |s| polyglot_decode_array(s.p(), null_mut(), kd(k(c"k"))), |x| x == 0);
nul!(h_c16_dec_map, |s| polyglot_decode_map(s.p(), null_mut(), kd(k(c"k")), kd(k(c"l"))), |x| x == 0);
nul!(h_c16_dec_bytes, |s| polyglot_decode_bytes(s.p(), null_mut()), |x: *mut Buffer| x.is_null());
nul!(h_c16_dec_string, |s| polyglot_decode_string(s.p(), null_mut()), |x: *mut c_char| x.is_null());
nul!(h_c16_dec_error, |s| polyglot_decode_error(s.p(), null_mut()), |x: *mut c_char| x.is_null());
nul!(h_c16_dec_bool, |s| polyglot_decode_bool(s.p(), null_mut()), |x: bool| !x);
nul!(h_c16_dec_u8, |s| polyglot_decode_u8(s.p(), null_mut()), |x| x == 0);
nul!(h_c16_dec_u16, |s| polyglot_decode_u16(s.p(), null_mut()), |x| x == 0);
nul!(h_c16_dec_u32, |s| polyglot_decode_u32(s.p(), null_mut()), |x| x == 0);
nul!(h_c16_dec_u64, |s| polyglot_decode_u64(s.p(), null_mut()), |x| x == 0);
nul!(h_c16_dec_i32, |s| polyglot_decode_i32(s.p(), null_mut()), |x| x == 0);
nul!(h_c16_dec_i64, |s| polyglot_decode_i64(s.p(), null_mut()), |x| x == 0);
nul!(h_c16_dec_f32, |s| polyglot_decode_f32(s.p(), null_mut()), |x: f32| x.to_bits() == 0);
nul!(h_c16_dec_f64, |s| polyglot_decode_f64(s.p(), null_mut()), |x: f64| x.to_bits() == 0);
#[no_mangle]
pub extern "C" fn h_c16_buffer() {
    let (s, e) = (St::new(), some());
    polyglot_encoder_buffer(s.p(), e, null_mut(), sym::u32(c"n"));
    unchanged(&s, e);
}
#[no_mangle]
pub extern "C" fn h_c16_bytes() {
    let (s, e) = (St::new(), some());
    polyglot_encode_bytes(s.p(), e, null_mut(), sym::u32(c"n"));
    unchanged(&s, e);
}
#[no_mangle]
pub extern "C" fn h_c16_string() {
    let (s, e) = (St::new(), some());
    polyglot_encode_string(s.p(), e, null_mut());
    unchanged(&s, e);
}
#[no_mangle]
pub extern "C" fn h_c16_error() {
    let (s, e) = (St::new(), some());
    polyglot_encode_error(s.p(), e, null_mut());
    unchanged(&s, e);
}
/// freeing null does nothing
#[no_mangle]
pub extern "C" fn h_c16_free() {
    polyglot_free_encoder(null_mut());
    polyglot_free_decoder(null_mut());
    polyglot_free_decode_bytes(null_mut());
    polyglot_free_decode_string(null_mut());
    polyglot_free_decode_error(null_mut());
    sym::reach(c"end");
}

// ------------------------------------------------------------------ C17
/// what a decode call handed out, to be freed later
#[derive(Clone, Copy)]
enum Held {
    No,
    Bytes(*mut Buffer),
    Str(*mut c_char),
    Err(*mut c_char),
}
fn touch(h: Held) {
    match h {
        Held::Bytes(b) => {
            let (p, n) = buf(b);
            if n > 0 {
                // the caller owns every byte of the buffer
                unsafe {
                    *p = 1;
                    *p.add(n as usize - 1) = 2;
                }
            }
        }
        Held::Str(p) | Held::Err(p) => unsafe {
            if *p != 0 {
                *p = b'x' as c_char;
            }
        },
        Held::No => {}
    }
}
fn release(h: Held) {
    match h {
        Held::Bytes(b) => polyglot_free_decode_bytes(b),
        Held::Str(p) => polyglot_free_decode_string(p),
        Held::Err(p) => polyglot_free_decode_error(p),
        Held::No => {}
    }
}
fn step(s: &St, d: *mut Decoder, what: usize) -> Held {
    match what {
        0 => {
            let b = polyglot_decode_bytes(s.p(), d);
            if b.is_null() {
                Held::No
            } else {
                Held::Bytes(b)
            }
        }
        1 => {
            let p = polyglot_decode_string(s.p(), d);
            if p.is_null() {
                Held::No
            } else {
                Held::Str(p)
            }
        }
        2 => {
            let p = polyglot_decode_error(s.p(), d);
            if p.is_null() {
                Held::No
            } else {
                Held::Err(p)
            }
        }
        3 => {
            polyglot_decode_map(s.p(), d, kd(5), kd(4));
            Held::No
        }
        4 => {
            polyglot_decode_u64(s.p(), d);
            Held::No
        }
        _ => Held::No,
    }
}
fn free_input(b: &'static mut [u8]) {
    // the decoder must not depend on the buffer it was made from
    let mut i = 0;
    while i < b.len() && i < 4 {
        b[i] = 0;
        i += 1;
    }
}
fn lifetimes(first: usize, second: usize, order: usize) {
    let s = St::new();
    let live = sym::live();
    let b = sym::bytes(c"in", 0, (1 << 32) - 1);
    if second < 9 {
        // declared lengths 0, 1 or 16 to 127 (those between are the single-call harnesses' part)
        sym::assume(b.len() > 4 && b[2] < 128 && b[3] < 128);
        let at = if first == 2 { 3 } else { 2 };
        sym::assume(first > 2 || b[at] < 2 || b[at] >= 16);
    }
    let d = polyglot_new_decoder(s.p(), b.as_mut_ptr(), b.len() as u32);
    let x = step(&s, d, first);
    let y = step(&s, d, second);
    free_input(b);
    // in any order
    match order {
        0 => {
            touch(x);
            release(x);
            touch(y);
            release(y);
            polyglot_free_decoder(d);
        }
        1 => {
            polyglot_free_decoder(d);
            touch(x);
            touch(y);
            release(y);
            release(x);
        }
        _ => {
            release(x);
            polyglot_free_decoder(d);
            touch(y);
            release(y);
        }
    }
    sym::check(sym::live() == live, c"everything freed is given back");
    sym::reach(c"end");
}
macro_rules! life {
    ($h:ident, $a:expr, $b:expr, $o:expr) => {
        #[no_mangle]
        pub extern "C" fn $h() {
            lifetimes($a, $b, $o)
        }
    };
}
life!(h_c17_bytes, 0, 9, 0);
life!(h_c17_bytes_later, 0, 9, 1);
life!(h_c17_string, 1, 9, 0);
life!(h_c17_string_later, 1, 9, 1);
life!(h_c17_error, 2, 9, 0);
life!(h_c17_error_later, 2, 9, 1);
life!(h_c17_map, 3, 9, 0);
life!(h_c17_bytes_bytes, 0, 0, 1);
life!(h_c17_bytes_bytes_2, 0, 0, 2);
life!(h_c17_bytes_string, 0, 1, 2);
life!(h_c17_bytes_string_1, 0, 1, 1);
life!(h_c17_string_error, 1, 2, 1);
life!(h_c17_string_error_2, 1, 2, 2);
life!(h_c17_error_bytes, 2, 0, 1);
life!(h_c17_map_string, 3, 1, 1);
life!(h_c17_u64_error, 4, 2, 0);
/// the copy out of an encoder of any size into room of any size
#[no_mangle]
pub extern "C" fn h_c17_copy() {
    let s = St::new();
    let live = sym::live();
    let e = polyglot_new_encoder(s.p());
    let v = sym::bytes(c"v", 0, (1 << 32) - 1);
    polyglot_encode_bytes(s.p(), e, v.as_mut_ptr(), v.len() as u32);
    s.passed();
    let room = sym::size(c"room", 0, (1 << 32) - 1);
    let b = sym::block(room);
    polyglot_encoder_buffer(s.p(), e, b, room as u32);
    if s.get() == PASS {
        sym::check(room > v.len(), c"copying out fails if the room is too small");
        let mut o = [0u8; 8];
        o[0] = 4;
        let l = put(&mut o, 1, 10, v.len() as u64);
        sym::check(room >= v.len() + l, c"copying out fails if the room is too small");
    } else {
        s.failed();
    }
    polyglot_free_encoder(e);
    sym::check(sym::live() == live, c"everything freed is given back");
    sym::reach(c"end");
}
/// an encoder used after a failed encode, and one freed unused
#[no_mangle]
pub extern "C" fn h_c17_encoder() {
    let s = St::new();
    let live = sym::live();
    let e = polyglot_new_encoder(s.p());
    let f = polyglot_new_encoder(s.p());
    let (p, _) = sym::cstr(c"v", 0, 1 << 20);
    polyglot_encode_string(s.p(), e, p);
    polyglot_free_encoder(f);
    polyglot_encode_error(s.p(), e, p);
    polyglot_encode_u16(s.p(), e, sym::u16(c"w"));
    s.passed();
    polyglot_free_encoder(e);
    sym::check(sym::live() == live, c"everything freed is given back");
    sym::reach(c"end");
}
