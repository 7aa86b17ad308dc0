//! sym_* for the replay build: inputs come from a model file.
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::ffi::CStr;
use std::os::raw::c_char;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

/// Checks every free against the allocation it frees; freed blocks are filled and kept.
pub struct Checked;
const SLOTS: usize = 1 << 16;
struct Table([[usize; 4]; SLOTS]);
static mut TABLE: Table = Table([[0; 4]; SLOTS]);
static USED: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static REALLY: AtomicBool = AtomicBool::new(false);
static IN_SYM: AtomicBool = AtomicBool::new(false);
static mut LIMIT_MSG: *const c_char = std::ptr::null();

extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn malloc(n: usize) -> *mut u8;
}

pub fn fail(kind: &str, msg: &str) -> ! {
    unsafe {
        for s in [kind, " ", msg, "\n"] {
            write(1, s.as_ptr(), s.len());
        }
        _exit(1)
    }
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT.load(SeqCst) && !IN_SYM.load(SeqCst) {
            fail("ASSERT-FAIL", CStr::from_ptr(LIMIT_MSG).to_str().unwrap_or(""));
        }
        let p = System.alloc(l);
        let i = USED.fetch_add(1, SeqCst);
        if i < SLOTS && !p.is_null() {
            TABLE.0[i] = [p as usize, l.size(), l.align(), 1 + IN_SYM.load(SeqCst) as usize];
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let n = USED.load(SeqCst).min(SLOTS);
        for i in (0..n).rev() {
            let e = &mut TABLE.0[i];
            if e[0] == p as usize {
                if e[3] == 0 {
                    fail("MEMORY", "free of freed memory");
                }
                if e[1] != l.size() {
                    fail("MEMORY", "free with the wrong size");
                }
                if e[2] != l.align() {
                    fail("MEMORY", "free with the wrong alignment");
                }
                e[3] = 0;
                if REALLY.load(SeqCst) {
                    System.dealloc(p, l);
                } else {
                    std::ptr::write_bytes(p, 0xdd, l.size());
                }
                return;
            }
        }
        if n < SLOTS {
            fail("MEMORY", "free of a pointer that was not allocated");
        }
    }
}

fn heap_size(p: usize) -> usize {
    let n = USED.load(SeqCst).min(SLOTS);
    for i in (0..n).rev() {
        let e = unsafe { TABLE.0[i] };
        if e[0] == p && e[3] != 0 {
            return e[1];
        }
    }
    0
}

#[derive(Clone)]
enum V {
    Int(u64),
    Bytes(usize, usize, u8, Vec<(usize, u8)>),
}
struct Model {
    vals: HashMap<String, V>,
    seen: HashMap<String, usize>,
}
static mut MODEL: Option<Model> = None;

struct Quiet(bool);
impl Quiet {
    fn new() -> Quiet {
        Quiet(IN_SYM.swap(true, SeqCst))
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        IN_SYM.store(self.0, SeqCst);
    }
}

pub fn load(path: &str) {
    let _q = Quiet::new();
    REALLY.store(std::env::var_os("REPLAY_FREE").is_some(), SeqCst);
    let mut vals = HashMap::new();
    for l in std::fs::read_to_string(path).unwrap().lines() {
        let f: Vec<&str> = l.split(' ').collect();
        let v = if f[1] == "int" {
            V::Int(f[2].parse().unwrap())
        } else {
            let at = f[5..]
                .iter()
                .filter(|s| !s.is_empty())
                .map(|s| {
                    let (a, b) = s.split_once(':').unwrap();
                    (a.parse().unwrap(), b.parse().unwrap())
                })
                .collect();
            V::Bytes(f[2].parse().unwrap(), f[3].parse().unwrap(), f[4].parse().unwrap(), at)
        };
        vals.insert(f[0].to_string(), v);
    }
    unsafe { MODEL = Some(Model { vals, seen: HashMap::new() }) }
}

#[allow(static_mut_refs)]
fn get(n: *const c_char) -> Option<V> {
    let _q = Quiet::new();
    let m = unsafe { MODEL.as_mut().unwrap() };
    let s = unsafe { CStr::from_ptr(n) }.to_str().unwrap().to_string();
    let k = m.seen.entry(s.clone()).or_insert(0);
    let key = format!("{s}#{k}");
    *k += 1;
    m.vals.get(&key).cloned()
}
fn int(n: *const c_char) -> u64 {
    match get(n) {
        Some(V::Int(v)) => v,
        _ => 0,
    }
}
#[no_mangle]
extern "C" fn sym_u8(n: *const c_char) -> u8 {
    int(n) as u8
}
#[no_mangle]
extern "C" fn sym_u16(n: *const c_char) -> u16 {
    int(n) as u16
}
#[no_mangle]
extern "C" fn sym_u32(n: *const c_char) -> u32 {
    int(n) as u32
}
#[no_mangle]
extern "C" fn sym_u64(n: *const c_char) -> u64 {
    int(n)
}
#[no_mangle]
extern "C" fn sym_size(n: *const c_char, lo: usize, _hi: usize) -> usize {
    match get(n) {
        Some(V::Int(v)) => v as usize,
        _ => lo,
    }
}
#[no_mangle]
extern "C" fn sym_choose(n: *const c_char, _k: usize) -> usize {
    int(n) as usize
}
unsafe fn data(n: *const c_char, lo: usize, extra: usize, heap: bool) -> (*mut u8, usize, usize) {
    let _q = Quiet::new();
    let (l, c, d, at) = match get(n) {
        Some(V::Bytes(l, c, d, at)) => (l, c, d, at),
        _ => (lo, lo, 0, vec![]),
    };
    let size = c + extra;
    let p = if heap {
        if size == 0 {
            1 as *mut u8
        } else {
            Checked.alloc(Layout::from_size_align(size, 1).unwrap())
        }
    } else {
        malloc(size.max(1))
    };
    if p.is_null() {
        fail("OOM", "");
    }
    if size > 0 {
        std::ptr::write_bytes(p, d, size);
    }
    for (i, b) in at {
        if i < size {
            *p.add(i) = b;
        }
    }
    (p, l, c)
}
#[no_mangle]
unsafe extern "C" fn sym_bytes(n: *const c_char, lo: usize, _hi: usize, len: *mut usize) -> *mut u8 {
    let (p, l, _) = data(n, lo, 0, false);
    *len = l;
    p
}
#[no_mangle]
unsafe extern "C" fn sym_str(n: *const c_char, lo: usize, hi: usize, len: *mut usize) -> *const u8 {
    let p = sym_bytes(n, lo, hi, len);
    if std::str::from_utf8(std::slice::from_raw_parts(p, *len)).is_err() {
        fail("BAD-MODEL", "text input is not UTF-8");
    }
    p
}
#[no_mangle]
unsafe extern "C" fn sym_cstr(n: *const c_char, lo: usize, _hi: usize, len: *mut usize) -> *mut c_char {
    let (p, l, _) = data(n, lo, 1, false);
    for i in 0..l {
        if *p.add(i) == 0 {
            fail("BAD-MODEL", "zero inside a C string");
        }
    }
    *p.add(l) = 0;
    *len = l;
    p as *mut c_char
}
#[no_mangle]
unsafe extern "C" fn sym_vec(n: *const c_char, lo: usize, _hi: usize, _m: usize, len: *mut usize, cap: *mut usize) -> *mut u8 {
    let (p, l, c) = data(n, lo, 0, true);
    *len = l;
    *cap = c;
    p
}
#[no_mangle]
unsafe extern "C" fn sym_block(size: usize) -> *mut u8 {
    let p = malloc(size.max(1));
    std::ptr::write_bytes(p, 0xa5, size);
    p
}
#[no_mangle]
unsafe extern "C" fn sym_snapshot(p: *const u8, n: usize) -> *const u8 {
    let q = malloc(n.max(1));
    std::ptr::copy_nonoverlapping(p, q, n);
    q
}
#[no_mangle]
extern "C" fn sym_assume(c: bool) {
    if !c {
        fail("BAD-MODEL", "assumption");
    }
}
#[no_mangle]
unsafe extern "C" fn sym_assert(c: bool, msg: *const c_char) {
    if !c {
        fail("ASSERT-FAIL", CStr::from_ptr(msg).to_str().unwrap());
    }
}
#[no_mangle]
unsafe extern "C" fn sym_assert_eq(a: *const u8, b: *const u8, n: usize, msg: *const c_char) {
    for i in 0..n {
        if *a.add(i) != *b.add(i) {
            fail("ASSERT-FAIL", CStr::from_ptr(msg).to_str().unwrap());
        }
    }
}
#[no_mangle]
unsafe extern "C" fn sym_utf8(p: *const u8, n: usize) -> bool {
    std::str::from_utf8(std::slice::from_raw_parts(p, n)).is_ok()
}
#[no_mangle]
unsafe extern "C" fn sym_has_zero(p: *const u8, n: usize) -> bool {
    std::slice::from_raw_parts(p, n).contains(&0)
}
#[no_mangle]
unsafe extern "C" fn sym_reach(l: *const c_char) {
    let _q = Quiet::new();
    println!("REACH {}", CStr::from_ptr(l).to_str().unwrap());
}
#[no_mangle]
unsafe extern "C" fn sym_alloc_limit(n: usize, msg: *const c_char) {
    LIMIT_MSG = msg;
    LIMIT.store(n, SeqCst);
}
#[no_mangle]
extern "C" fn sym_live() -> usize {
    let n = USED.load(SeqCst).min(SLOTS);
    (0..n).filter(|&i| unsafe { TABLE.0[i][3] } == 1).count()
}
#[no_mangle]
extern "C" fn sym_heap_size(p: *const u8) -> usize {
    heap_size(p as usize)
}
