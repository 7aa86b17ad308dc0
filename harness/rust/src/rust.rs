//! Properties C10 to C14: the Rust crate.
use crate::sym;
use polyglot_rs::{Decoder, Encoder, Kind};
use std::error::Error;
use std::io::Cursor;

pub const PRE: usize = 1 << 32;
pub const LEN: usize = (1 << 32) - 1;
pub const TAIL: usize = 1 << 20;
type Enc = Cursor<Vec<u8>>;

pub fn kind(n: &std::ffi::CStr) -> Kind {
    let k = sym::u8(n);
    sym::assume(k <= 16);
    unsafe { std::mem::transmute(k) }
}

// ------------------------------------------------------------------ reference
/// shortest-form varint of v at out[at..], returns the end
pub fn varint(out: &mut [u8], at: usize, v: u64) -> usize {
    let mut v = v;
    let mut i = at;
    while v > 127 {
        out[i] = (v & 127) as u8 | 128;
        v >>= 7;
        i += 1;
    }
    out[i] = v as u8;
    i + 1
}
pub fn zig32(v: i32) -> u64 {
    ((v << 1) ^ (v >> 31)) as u32 as u64
}
pub fn zig64(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}
pub fn unzig32(u: u64) -> i32 {
    let u = u as u32;
    ((u >> 1) ^ (0u32.wrapping_sub(u & 1))) as i32
}
pub fn unzig64(u: u64) -> i64 {
    ((u >> 1) ^ (0u64.wrapping_sub(u & 1))) as i64
}
pub fn at(b: &[u8], i: usize) -> Option<u8> {
    if i < b.len() {
        Some(b[i])
    } else {
        None
    }
}
/// a complete varint of at most max bytes whose last possible byte is at most top
pub fn rvarint(b: &[u8], from: usize, max: usize, top: u8) -> Option<(u64, usize)> {
    let mut v = 0u64;
    let mut i = 0;
    while i < max {
        let x = at(b, from + i)?;
        v |= ((x & 127) as u64) << (7 * i);
        if x < 128 {
            if i == max - 1 && x > top {
                return None;
            }
            return Some((v, from + i + 1));
        }
        i += 1;
    }
    None
}
pub fn rkind(b: &[u8], from: usize, k: u8) -> Option<usize> {
    if at(b, from)? == k {
        Some(from + 1)
    } else {
        None
    }
}
pub fn ru16(b: &[u8], p: usize) -> Option<(u16, usize)> {
    let (v, e) = rvarint(b, rkind(b, p, 9)?, 3, 3)?;
    Some((v as u16, e))
}
pub fn ru32(b: &[u8], p: usize) -> Option<(u32, usize)> {
    let (v, e) = rvarint(b, rkind(b, p, 10)?, 5, 15)?;
    Some((v as u32, e))
}
pub fn ru64(b: &[u8], p: usize) -> Option<(u64, usize)> {
    rvarint(b, rkind(b, p, 11)?, 10, 1)
}
pub fn ri32(b: &[u8], p: usize) -> Option<(i32, usize)> {
    let (v, e) = rvarint(b, rkind(b, p, 12)?, 5, 15)?;
    Some((unzig32(v), e))
}
pub fn ri64(b: &[u8], p: usize) -> Option<(i64, usize)> {
    let (v, e) = rvarint(b, rkind(b, p, 13)?, 10, 1)?;
    Some((unzig64(v), e))
}
pub fn ru8(b: &[u8], p: usize) -> Option<(u8, usize)> {
    let p = rkind(b, p, 8)?;
    Some((at(b, p)?, p + 1))
}
pub fn rbool(b: &[u8], p: usize) -> Option<(bool, usize)> {
    let p = rkind(b, p, 7)?;
    match at(b, p)? {
        0 => Some((false, p + 1)),
        1 => Some((true, p + 1)),
        _ => None,
    }
}
pub fn rfixed(b: &[u8], p: usize, k: u8, n: usize) -> Option<(u64, usize)> {
    let p = rkind(b, p, k)?;
    if p + n > b.len() {
        return None;
    }
    let mut v = 0;
    let mut i = 0;
    while i < n {
        v = v << 8 | b[p + i] as u64;
        i += 1;
    }
    Some((v, p + n))
}
/// payload position and end
pub fn rblob(b: &[u8], p: usize, k: u8) -> Option<(usize, usize)> {
    let (n, p) = ru32(b, rkind(b, p, k)?)?;
    if n as usize > b.len() - p {
        return None;
    }
    Some((p, p + n as usize))
}
pub fn rarray(b: &[u8], p: usize, k: u8) -> Option<(usize, usize)> {
    let p = rkind(b, rkind(b, p, 1)?, k)?;
    let (n, e) = ru32(b, p)?;
    Some((n as usize, e))
}
pub fn rmap(b: &[u8], p: usize, k: u8, v: u8) -> Option<(usize, usize)> {
    let p = rkind(b, rkind(b, rkind(b, p, 2)?, k)?, v)?;
    let (n, e) = ru32(b, p)?;
    Some((n as usize, e))
}

// ------------------------------------------------------------------ C10
fn start() -> (Enc, usize) {
    let v = sym::vec(c"pre", 0, PRE, PRE * 2);
    let n = v.len();
    let mut c = Cursor::new(v);
    c.set_position(n as u64);
    (c, n)
}
/// the same from a nearly empty vector
fn start_short() -> (Enc, usize) {
    let v = sym::vec(c"pre", 0, 1, 64);
    let n = v.len();
    let mut c = Cursor::new(v);
    c.set_position(n as u64);
    (c, n)
}
/// what was encoded, followed by anything
fn follow(c: Enc) -> (Vec<u8>, usize) {
    let mut v = c.into_inner();
    let e = v.len();
    v.extend_from_slice(sym::bytes(c"tail", 0, TAIL));
    (v, e)
}
fn done(d: &Cursor<&[u8]>, e: usize) {
    sym::check(d.position() == e as u64, c"decoding consumes exactly the encoded bytes");
    sym::reach(c"end");
}
macro_rules! rt {
    ($h:ident, $v:expr, $e:ident, $d:ident, $eq:expr) => {
        #[no_mangle]
        pub extern "C" fn $h() {
            let (mut c, n) = start();
            let v = $v;
            sym::check((&mut c).$e(v).is_ok(), c"encode succeeds");
            let (b, e) = follow(c);
            let mut d = Cursor::new(&b[..]);
            d.set_position(n as u64);
            match d.$d() {
                Ok(x) => sym::check($eq(x, v), c"the decoded value is the encoded one"),
                Err(_) => sym::check(false, c"what was encoded decodes"),
            }
            done(&d, e);
        }
    };
}
rt!(h_c10_u8, sym::u8(c"v"), encode_u8, decode_u8, |a, b| a == b);
rt!(h_c10_u16, sym::u16(c"v"), encode_u16, decode_u16, |a, b| a == b);
rt!(h_c10_u32, sym::u32(c"v"), encode_u32, decode_u32, |a, b| a == b);
rt!(h_c10_u64, sym::u64(c"v"), encode_u64, decode_u64, |a, b| a == b);
rt!(h_c10_i32, sym::i32(c"v"), encode_i32, decode_i32, |a, b| a == b);
rt!(h_c10_i64, sym::i64(c"v"), encode_i64, decode_i64, |a, b| a == b);
rt!(h_c10_bool, sym::bool(c"v"), encode_bool, decode_bool, |a, b| a == b);
rt!(h_c10_f32, f32::from_bits(sym::u32(c"v")), encode_f32, decode_f32, |a: f32, b: f32| a.to_bits() == b.to_bits());
rt!(h_c10_f64, f64::from_bits(sym::u64(c"v")), encode_f64, decode_f64, |a: f64, b: f64| a.to_bits() == b.to_bits());

#[no_mangle]
pub extern "C" fn h_c10_none() {
    let (mut c, n) = start();
    sym::check((&mut c).encode_none().is_ok(), c"encode succeeds");
    let (b, e) = follow(c);
    let mut d = Cursor::new(&b[..]);
    d.set_position(n as u64);
    sym::check(d.decode_none(), c"what was encoded decodes");
    done(&d, e);
}
#[no_mangle]
pub extern "C" fn h_c10_bytes() {
    let (mut c, n) = start();
    let v = sym::bytes(c"v", 0, LEN);
    sym::check((&mut c).encode_bytes(v).is_ok(), c"encode succeeds");
    let (b, e) = follow(c);
    let mut d = Cursor::new(&b[..]);
    d.set_position(n as u64);
    match d.decode_bytes() {
        Ok(x) => sym::check_eq(&x, v, c"the decoded value is the encoded one"),
        Err(_) => sym::check(false, c"what was encoded decodes"),
    }
    done(&d, e);
}
#[no_mangle]
pub extern "C" fn h_c10_str() {
    let (mut c, n) = start_short();
    let v = sym::str(c"v", 0, LEN);
    sym::check((&mut c).encode_str(v).is_ok(), c"encode succeeds");
    let (b, e) = follow(c);
    let mut d = Cursor::new(&b[..]);
    d.set_position(n as u64);
    match d.decode_string() {
        Ok(x) => sym::check_eq(x.as_bytes(), v.as_bytes(), c"the decoded value is the encoded one"),
        Err(_) => sym::check(false, c"what was encoded decodes"),
    }
    done(&d, e);
}
#[no_mangle]
pub extern "C" fn h_c10_string() {
    let (mut c, n) = start_short();
    let v = sym::str(c"v", 0, LEN).to_string();
    sym::check((&mut c).encode_string(&v).is_ok(), c"encode succeeds");
    let (b, e) = follow(c);
    let mut d = Cursor::new(&b[..]);
    d.set_position(n as u64);
    match d.decode_string() {
        Ok(x) => sym::check_eq(x.as_bytes(), v.as_bytes(), c"the decoded value is the encoded one"),
        Err(_) => sym::check(false, c"what was encoded decodes"),
    }
    done(&d, e);
}
#[no_mangle]
pub extern "C" fn h_c10_error() {
    let (mut c, n) = start_short();
    let v = sym::str(c"v", 0, LEN);
    let err = Box::<dyn Error>::from(v);
    sym::check((&mut c).encode_error(err).is_ok(), c"encode succeeds");
    let (b, e) = follow(c);
    let mut d = Cursor::new(&b[..]);
    d.set_position(n as u64);
    match d.decode_error() {
        Ok(x) => sym::check_eq(x.to_string().as_bytes(), v.as_bytes(), c"the decoded value is the encoded one"),
        Err(_) => sym::check(false, c"what was encoded decodes"),
    }
    done(&d, e);
}
#[no_mangle]
pub extern "C" fn h_c10_array() {
    let (mut c, n) = start();
    let (v, k) = (sym::u32(c"v") as usize, sym::u8(c"k"));
    sym::assume(k <= 16);
    let kk = || unsafe { std::mem::transmute::<u8, Kind>(k) };
    sym::check((&mut c).encode_array(v, kk()).is_ok(), c"encode succeeds");
    let (b, e) = follow(c);
    let mut d = Cursor::new(&b[..]);
    d.set_position(n as u64);
    match d.decode_array(kk()) {
        Ok(x) => sym::check(x == v, c"the decoded value is the encoded one"),
        Err(_) => sym::check(false, c"what was encoded decodes"),
    }
    done(&d, e);
}
#[no_mangle]
pub extern "C" fn h_c10_map() {
    let (mut c, n) = start();
    let (v, k, l) = (sym::u32(c"v") as usize, sym::u8(c"k"), sym::u8(c"l"));
    sym::assume(k <= 16 && l <= 16);
    let kk = |k| unsafe { std::mem::transmute::<u8, Kind>(k) };
    sym::check((&mut c).encode_map(v, kk(k), kk(l)).is_ok(), c"encode succeeds");
    let (b, e) = follow(c);
    let mut d = Cursor::new(&b[..]);
    d.set_position(n as u64);
    match d.decode_map(kk(k), kk(l)) {
        Ok(x) => sym::check(x == v, c"the decoded value is the encoded one"),
        Err(_) => sym::check(false, c"what was encoded decodes"),
    }
    done(&d, e);
}
/// two values one after the other, read back from an owned vector
#[no_mangle]
pub extern "C" fn h_c10_pair() {
    let mut c = Cursor::new(Vec::new());
    let (a, s, z) = (sym::u32(c"a"), sym::bytes(c"s", 0, LEN), sym::i32(c"z"));
    let r = (&mut c).encode_u32(a).and_then(|c| c.encode_bytes(s)).and_then(|c| c.encode_i32(z)).and_then(|c| c.encode_none());
    sym::check(r.is_ok(), c"encode succeeds");
    let mut d = Cursor::new(c.into_inner());
    sym::check(!d.decode_none(), c"the none probe fails on another kind");
    sym::check(d.decode_u32() == Ok(a), c"the decoded value is the encoded one");
    match d.decode_bytes() {
        Ok(x) => sym::check_eq(&x, s, c"the decoded value is the encoded one"),
        Err(_) => sym::check(false, c"what was encoded decodes"),
    }
    sym::check(d.decode_i32() == Ok(z), c"the decoded value is the encoded one");
    sym::check(d.decode_none(), c"what was encoded decodes");
    sym::check(d.position() == d.get_ref().len() as u64, c"decoding consumes exactly the encoded bytes");
    sym::reach(c"end");
}

// ------------------------------------------------------------------ C11
struct Canon {
    old: &'static [u8],
    n: usize,
}
fn begin(c: &Enc, n: usize) -> Canon {
    Canon { old: sym::snapshot(&c.get_ref()[..]), n }
}
fn compare(c: &Enc, s: Canon, head: &[u8], payload: &[u8]) {
    let b = &c.get_ref()[..];
    sym::check(b.len() == s.n + head.len() + payload.len(), c"exactly the canonical bytes are appended (length)");
    sym::check(c.position() == b.len() as u64, c"the cursor is at the end");
    sym::check_eq(&b[..s.n], s.old, c"earlier bytes are unchanged");
    sym::check_eq(&b[s.n..s.n + head.len()], head, c"exactly the canonical bytes are appended");
    if !payload.is_empty() {
        sym::check_eq(&b[s.n + head.len()..], payload, c"exactly the canonical bytes are appended (payload)");
    }
    sym::reach(c"end");
}
macro_rules! canon {
    ($h:ident, $e:ident, $v:expr, |$x:ident, $o:ident| $w:expr) => {
        #[no_mangle]
        pub extern "C" fn $h() {
            let (mut c, n) = start();
            let s = begin(&c, n);
            let $x = $v;
            sym::check((&mut c).$e($x).is_ok(), c"encode succeeds");
            let mut $o = [0u8; 16];
            let l: usize = $w;
            compare(&c, s, &$o[..l], &[]);
        }
    };
}
fn be(o: &mut [u8], v: u64, n: usize) -> usize {
    for i in 0..n {
        o[1 + i] = (v >> (8 * (n - 1 - i))) as u8;
    }
    n + 1
}
canon!(h_c11_u8, encode_u8, sym::u8(c"v"), |v, o| { o[0] = 8; o[1] = v; 2 });
canon!(h_c11_u16, encode_u16, sym::u16(c"v"), |v, o| { o[0] = 9; varint(&mut o, 1, v as u64) });
canon!(h_c11_u32, encode_u32, sym::u32(c"v"), |v, o| { o[0] = 10; varint(&mut o, 1, v as u64) });
canon!(h_c11_u64, encode_u64, sym::u64(c"v"), |v, o| { o[0] = 11; varint(&mut o, 1, v) });
canon!(h_c11_i32, encode_i32, sym::i32(c"v"), |v, o| { o[0] = 12; varint(&mut o, 1, zig32(v)) });
canon!(h_c11_i64, encode_i64, sym::i64(c"v"), |v, o| { o[0] = 13; varint(&mut o, 1, zig64(v)) });
canon!(h_c11_bool, encode_bool, sym::bool(c"v"), |v, o| { o[0] = 7; o[1] = if v { 1 } else { 0 }; 2 });
canon!(h_c11_f32, encode_f32, f32::from_bits(sym::u32(c"v")), |v, o| { o[0] = 14; be(&mut o, v.to_bits() as u64, 4) });
canon!(h_c11_f64, encode_f64, f64::from_bits(sym::u64(c"v")), |v, o| { o[0] = 15; be(&mut o, v.to_bits(), 8) });
#[no_mangle]
pub extern "C" fn h_c11_none() {
    let (mut c, n) = start();
    let s = begin(&c, n);
    sym::check((&mut c).encode_none().is_ok(), c"encode succeeds");
    compare(&c, s, &[0], &[]);
}
pub fn lenhead(o: &mut [u8], ks: &[u8], n: u64) -> usize {
    o[..ks.len()].copy_from_slice(ks);
    o[ks.len()] = 10;
    varint(o, ks.len() + 1, n)
}
#[no_mangle]
pub extern "C" fn h_c11_array() {
    let (mut c, n) = start();
    let s = begin(&c, n);
    let (v, k) = (sym::u32(c"v") as usize, sym::u8(c"k"));
    sym::assume(k <= 16);
    sym::check((&mut c).encode_array(v, unsafe { std::mem::transmute(k) }).is_ok(), c"encode succeeds");
    let mut o = [0u8; 16];
    let l = lenhead(&mut o, &[1, k], v as u64);
    compare(&c, s, &o[..l], &[]);
}
#[no_mangle]
pub extern "C" fn h_c11_map() {
    let (mut c, n) = start();
    let s = begin(&c, n);
    let (v, k, l) = (sym::u32(c"v") as usize, sym::u8(c"k"), sym::u8(c"l"));
    sym::assume(k <= 16 && l <= 16);
    sym::check((&mut c).encode_map(v, unsafe { std::mem::transmute(k) }, unsafe { std::mem::transmute(l) }).is_ok(), c"encode succeeds");
    let mut o = [0u8; 16];
    let l = lenhead(&mut o, &[2, k, l], v as u64);
    compare(&c, s, &o[..l], &[]);
}
#[no_mangle]
pub extern "C" fn h_c11_bytes() {
    let (mut c, n) = start();
    let s = begin(&c, n);
    let v = sym::bytes(c"v", 0, LEN);
    sym::check((&mut c).encode_bytes(v).is_ok(), c"encode succeeds");
    let mut o = [0u8; 16];
    let l = lenhead(&mut o, &[4], v.len() as u64);
    compare(&c, s, &o[..l], v);
}
#[no_mangle]
pub extern "C" fn h_c11_str() {
    let (mut c, n) = start();
    let s = begin(&c, n);
    let v = sym::str(c"v", 0, LEN);
    sym::check((&mut c).encode_str(v).is_ok(), c"encode succeeds");
    let mut o = [0u8; 16];
    let l = lenhead(&mut o, &[5], v.len() as u64);
    compare(&c, s, &o[..l], v.as_bytes());
}
#[no_mangle]
pub extern "C" fn h_c11_string() {
    let (mut c, n) = start();
    let s = begin(&c, n);
    let v = sym::str(c"v", 0, LEN).to_string();
    sym::check((&mut c).encode_string(&v).is_ok(), c"encode succeeds");
    let mut o = [0u8; 16];
    let l = lenhead(&mut o, &[5], v.len() as u64);
    compare(&c, s, &o[..l], v.as_bytes());
}
#[no_mangle]
pub extern "C" fn h_c11_error() {
    let (mut c, n) = start();
    let s = begin(&c, n);
    let v = sym::str(c"v", 0, LEN);
    sym::check((&mut c).encode_error(Box::<dyn Error>::from(v)).is_ok(), c"encode succeeds");
    let mut o = [0u8; 16];
    let l = lenhead(&mut o, &[6, 5], v.len() as u64);
    compare(&c, s, &o[..l], v.as_bytes());
}

// ------------------------------------------------------------------ C12
fn input() -> (Cursor<&'static [u8]>, &'static [u8], usize) {
    let b: &'static [u8] = sym::bytes(c"in", 0, PRE * 2);
    let p = sym::size(c"pos", 0, PRE * 4);
    let mut c = Cursor::new(b);
    c.set_position(p as u64);
    (c, b, p)
}
fn verdict(ok: bool, complete: bool) {
    if ok {
        sym::check(complete, c"a decode succeeds only on a complete encoding");
        sym::reach(c"ok");
    } else {
        sym::check(!complete, c"a complete encoding decodes");
        sym::reach(c"err");
    }
}
macro_rules! dec {
    ($h:ident, $d:ident, |$b:ident, $p:ident| $r:expr, $eq:expr) => {
        #[no_mangle]
        pub extern "C" fn $h() {
            let (mut c, $b, $p) = input();
            let r = c.$d();
            let e = $r;
            verdict(r.is_ok(), e.is_some());
            if let (Ok(x), Some((v, end))) = (r, e) {
                sym::check($eq(x, v), c"the value returned is the one encoded");
                sym::check(c.position() == end as u64, c"exactly the encoding is consumed");
            }
        }
    };
}
dec!(h_c12_u8, decode_u8, |b, p| ru8(b, p), |a, b| a == b);
dec!(h_c12_u16, decode_u16, |b, p| ru16(b, p), |a, b| a == b);
dec!(h_c12_u32, decode_u32, |b, p| ru32(b, p), |a, b| a == b);
dec!(h_c12_u64, decode_u64, |b, p| ru64(b, p), |a, b| a == b);
dec!(h_c12_i32, decode_i32, |b, p| ri32(b, p), |a, b| a == b);
dec!(h_c12_i64, decode_i64, |b, p| ri64(b, p), |a, b| a == b);
dec!(h_c12_bool, decode_bool, |b, p| rbool(b, p), |a, b| a == b);
dec!(h_c12_f32, decode_f32, |b, p| rfixed(b, p, 14, 4), |a: f32, b: u64| a.to_bits() as u64 == b);
dec!(h_c12_f64, decode_f64, |b, p| rfixed(b, p, 15, 8), |a: f64, b: u64| a.to_bits() == b);
#[no_mangle]
pub extern "C" fn h_c12_none() {
    let (mut c, b, p) = input();
    let r = c.decode_none();
    verdict(r, rkind(b, p, 0).is_some());
    sym::check(p > b.len() || c.position() == if r { p as u64 + 1 } else { p as u64 }, c"the none probe consumes its byte and nothing else");
}
#[no_mangle]
pub extern "C" fn h_c12_array() {
    let (mut c, b, p) = input();
    let k = sym::u8(c"k");
    sym::assume(k <= 16);
    let r = c.decode_array(unsafe { std::mem::transmute(k) });
    let e = rarray(b, p, k);
    verdict(r.is_ok(), e.is_some());
    if let (Ok(x), Some((v, end))) = (r, e) {
        sym::check(x == v, c"the value returned is the one encoded");
        sym::check(c.position() == end as u64, c"exactly the encoding is consumed");
    }
}
#[no_mangle]
pub extern "C" fn h_c12_map() {
    let (mut c, b, p) = input();
    let (k, l) = (sym::u8(c"k"), sym::u8(c"l"));
    sym::assume(k <= 16 && l <= 16);
    let r = c.decode_map(unsafe { std::mem::transmute(k) }, unsafe { std::mem::transmute(l) });
    let e = rmap(b, p, k, l);
    verdict(r.is_ok(), e.is_some());
    if let (Ok(x), Some((v, end))) = (r, e) {
        sym::check(x == v, c"the value returned is the one encoded");
        sym::check(c.position() == end as u64, c"exactly the encoding is consumed");
    }
}
fn blob(r: Option<&[u8]>, pos: u64, b: &[u8], e: Option<(usize, usize)>, text: bool) {
    let good = match e {
        Some((s, end)) => !text || sym::utf8(&b[s..end]),
        None => false,
    };
    verdict(r.is_some(), good);
    if let (Some(x), Some((s, end))) = (r, e) {
        sym::check(x.len() == end - s, c"the value returned is the one encoded (length)");
        if !x.is_empty() {
            sym::check_eq(x, &b[s..end], c"the value returned is the one encoded");
        }
        sym::check(pos == end as u64, c"exactly the encoding is consumed");
    }
}
#[no_mangle]
pub extern "C" fn h_c12_bytes() {
    let (mut c, b, p) = input();
    let r = c.decode_bytes().ok();
    blob(r.as_deref(), c.position(), b, rblob(b, p, 4), false);
}
#[no_mangle]
pub extern "C" fn h_c12_string() {
    let (mut c, b, p) = input();
    let r = c.decode_string().ok();
    blob(r.as_ref().map(|s| s.as_bytes()), c.position(), b, rblob(b, p, 5), true);
}
#[no_mangle]
pub extern "C" fn h_c12_error() {
    let (mut c, b, p) = input();
    let r = c.decode_error().ok().map(|e| e.to_string());
    let e = match rkind(b, p, 6) {
        Some(q) => rblob(b, q, 5),
        None => None,
    };
    blob(r.as_ref().map(|s| s.as_bytes()), c.position(), b, e, true);
}
/// the same code on a cursor that owns its bytes
#[no_mangle]
pub extern "C" fn h_c12_owned() {
    let v = sym::vec(c"in", 0, PRE, PRE * 2);
    let b = sym::snapshot(&v);
    let p = sym::size(c"pos", 0, PRE * 2);
    let mut c = Cursor::new(v);
    c.set_position(p as u64);
    if sym::choose(c"which", 2) == 0 {
        let r = c.decode_u32();
        let e = ru32(b, p);
        verdict(r.is_ok(), e.is_some());
        if let (Ok(x), Some((v, end))) = (r, e) {
            sym::check(x == v, c"the value returned is the one encoded");
            sym::check(c.position() == end as u64, c"exactly the encoding is consumed");
        }
    } else {
        let r = c.decode_bytes().ok();
        blob(r.as_deref(), c.position(), b, rblob(b, p, 4), false);
    }
}

// ------------------------------------------------------------------ C13
macro_rules! other {
    ($h:ident, $k:expr, |$c:ident| $call:expr) => {
        #[no_mangle]
        pub extern "C" fn $h() {
            let (mut $c, b, p) = input();
            sym::assume(p < b.len());
            sym::assume(b[p] != $k);
            sym::check(!$call, c"a decode of another kind fails");
            sym::check($c.position() == p as u64, c"a decode of another kind leaves the cursor in place");
            sym::reach(c"end");
        }
    };
}
other!(h_c13_array, 1, |c| c.decode_array(kind(c"k")).is_ok());
other!(h_c13_map, 2, |c| c.decode_map(kind(c"k"), kind(c"l")).is_ok());
other!(h_c13_bytes, 4, |c| c.decode_bytes().is_ok());
other!(h_c13_string, 5, |c| c.decode_string().is_ok());
other!(h_c13_error, 6, |c| c.decode_error().is_ok());
other!(h_c13_bool, 7, |c| c.decode_bool().is_ok());
other!(h_c13_u8, 8, |c| c.decode_u8().is_ok());
other!(h_c13_u16, 9, |c| c.decode_u16().is_ok());
other!(h_c13_u32, 10, |c| c.decode_u32().is_ok());
other!(h_c13_u64, 11, |c| c.decode_u64().is_ok());
other!(h_c13_i32, 12, |c| c.decode_i32().is_ok());
other!(h_c13_i64, 13, |c| c.decode_i64().is_ok());
other!(h_c13_f32, 14, |c| c.decode_f32().is_ok());
other!(h_c13_f64, 15, |c| c.decode_f64().is_ok());
other!(h_c13_none, 0, |c| c.decode_none());
#[no_mangle]
pub extern "C" fn h_c13_elem() {
    let (mut c, b, p) = input();
    let k = sym::u8(c"k");
    sym::assume(k <= 16 && p < b.len() && b.len() - p >= 2);
    sym::assume(b[p] == 1 && b[p + 1] != k);
    sym::check(c.decode_array(unsafe { std::mem::transmute(k) }).is_err(), c"a decode of another kind fails");
    sym::check(c.position() == p as u64, c"a decode of another kind leaves the cursor in place");
    sym::reach(c"end");
}
#[no_mangle]
pub extern "C" fn h_c13_keyval() {
    let (mut c, b, p) = input();
    let (k, l) = (sym::u8(c"k"), sym::u8(c"l"));
    sym::assume(k <= 16 && l <= 16 && p < b.len() && b.len() - p >= 3);
    sym::assume(b[p] == 2 && (b[p + 1] != k || b[p + 2] != l));
    sym::check(c.decode_map(unsafe { std::mem::transmute(k) }, unsafe { std::mem::transmute(l) }).is_err(), c"a decode of another kind fails");
    sym::check(c.position() == p as u64, c"a decode of another kind leaves the cursor in place");
    sym::reach(c"end");
}

// ------------------------------------------------------------------ C14
macro_rules! limit {
    ($h:ident, |$c:ident| $call:expr) => {
        #[no_mangle]
        pub extern "C" fn $h() {
            let (mut $c, b, p) = input();
            let rest = if p < b.len() { b.len() - p } else { 0 };
            sym::alloc_limit(rest + 64, c"no allocation exceeds what the remaining input can hold");
            if $call {
                sym::reach(c"ok");
            } else {
                sym::reach(c"err");
            }
        }
    };
}
limit!(h_c14_bytes, |c| c.decode_bytes().is_ok());
limit!(h_c14_string, |c| c.decode_string().is_ok());
limit!(h_c14_error, |c| c.decode_error().is_ok());
limit!(h_c14_array, |c| c.decode_array(kind(c"k")).is_ok());
limit!(h_c14_map, |c| c.decode_map(kind(c"k"), kind(c"l")).is_ok());
limit!(h_c14_u64, |c| c.decode_u64().is_ok());
