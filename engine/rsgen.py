"""C28: the Rust generators are run on the schema family and the code they write is executed symbolically."""
import os, re, time
from concurrent.futures import ThreadPoolExecutor
import gengo, rsrun, schemas
from rscheck import ASSUME
from schemas import Enum, Msg, PKG, camel
from symcheck import BUDGET, conclude, options

RT = {'int32': 'i32', 'sint32': 'i32', 'sfixed32': 'i32', 'uint32': 'u32', 'fixed32': 'u32', 'int64': 'i64', 'sint64': 'i64', 'sfixed64': 'i64',
      'uint64': 'u64', 'fixed64': 'u64', 'float': 'f32', 'double': 'f64', 'bool': 'bool', 'string': 'String', 'bytes': 'Vec<u8>'}
CALL = {'String': 'string', 'Vec<u8>': 'bytes'}
KIND = {'String': 'String', 'Vec<u8>': 'Bytes', 'bool': 'Bool', 'i32': 'I32', 'u32': 'U32', 'i64': 'I64', 'u64': 'U64', 'f32': 'F32', 'f64': 'F64'}


def snake(s):
    """the snake case the generator documents"""
    out, run = '', False
    for c in s:
        if 'A' <= c <= 'Z':
            out += ('' if run or not out else '_') + c.lower()
            run = True
        else:
            out += c
            run = False
    return out


class Gen:
    def __init__(self, v, thorough=False):
        self.v, self.thorough = v, thorough
        self.enums, msgs = schemas.family()
        self.msgs = [m for m in msgs if not self.recursive(m)]
        self.desc, self.paths = schemas.descriptor(self.enums, self.msgs)
        self.all = []

        def walk(m):
            for n in m.nested:
                walk(n)
            self.all.append(m)
        for m in self.msgs:
            walk(m)
        self.out = []

    def recursive(self, m, seen=()):
        return m in seen or any(self.recursive(f.type, seen + (m,)) for f in m.fields if isinstance(f.type, Msg))

    def w(self, s):
        self.out.append(s)

    def tname(self, t):
        return camel(PKG + '.' + self.paths[id(t)])

    def ty(self, t):
        return f'fam{self.v}::{self.tname(t)}' if isinstance(t, (Msg, Enum)) else RT[t]

    def base(self, t):
        return 'u32' if isinstance(t, Enum) else RT[t]

    def call(self, t):
        b = self.base(t)
        return CALL.get(b, b)

    def kind(self, t):
        return 'Kind::Any' if isinstance(t, Msg) else 'Kind::' + KIND[self.base(t)]

    # ---- arbitrary values
    def mk(self, t, name, small):
        if isinstance(t, Msg):
            return f'mk_{self.tname(t)}(true)'
        n = f'c"{name}"'
        if isinstance(t, Enum):
            vs = [f'{(t.name + "_" + v).upper()}' for v in t.vals]
            arms = ''.join(f'{i} => {self.ty(t)}::{v}, ' for i, v in enumerate(vs[:-1]))
            return f'match sym::choose_u32({n}, {len(vs)}) {{ {arms}_ => {self.ty(t)}::{vs[-1]} }}'.replace('sym::choose_u32', 'less')
        r = RT[t]
        if r in ('String', 'Vec<u8>'):
            if small == 'fixed':
                return f'{CALL[r]}2({n})'
            if small == 'nested':
                return f'if small {{ {CALL[r]}2({n}) }} else {{ {CALL[r]}_({n}, true) }}'
            if small == 'small || n > 1' and not self.thorough:
                return f'if n > 1 {{ {CALL[r]}2({n}) }} else {{ {CALL[r]}_({n}, small) }}'
            return f'{CALL[r]}_({n}, {small})'
        if r in ('i32', 'u32', 'i64', 'u64'):
            return f'{r}_({n}, {small if small in ("small", "true") or "||" in small else "true"})'
        return {'bool': f'sym::bool({n})', 'f32': f'f32::from_bits(sym::u32({n}))', 'f64': f'f64::from_bits(sym::u64({n}))'}[r]

    def mkkey(self, t, name, small):
        return f'key_(c"{name}")' if t == 'string' else self.mk(t, name, small)

    def mkfunc(self, m):
        T = self.tname(m)
        one, full = len(m.fields) > 1, m.o.get('full')
        some = 'fixed' if full or len(m.fields) > 3 else 'nested'
        self.w(f'fn mk_{T}(small: bool) -> fam{self.v}::{T} {{\n    let _ = small;\n    fam{self.v}::{T} {{')
        for f in m.fields:
            F, nm = snake(f.name), f'{T}.{f.name}'
            if f.card == 'one':
                self.w(f'        {F}: {self.mk(f.type, nm, some if one else "small")},')
            elif f.card == 'list':
                n = '1' if full else f'sym::choose(c"{nm}.n", {2 if one else self.count(m) + 1})'
                self.w(f'        {F}: {{\n            let n = {n};\n            let mut l = Vec::new();\n            for _ in 0..n {{\n'
                       f'                l.push({self.mk(f.type, nm, "fixed" if one else "small || n > 1")});\n            }}\n            l\n        }},')
            else:
                n = '1' if full else f'sym::choose(c"{nm}.n", {2 if one else self.count(m) + 1})'
                sm = 'fixed' if one else 'small || n > 1'
                self.w(f'        {F}: {{\n            let n = {n};\n            let mut m = HashMap::new();\n            for _ in 0..n {{\n'
                       f'                let k = {self.mkkey(f.key, nm + ".k", sm)};\n                sym::assume(!m.contains_key(&k));\n'
                       f'                m.insert(k, {self.mk(f.type, nm + ".v", sm)});\n            }}\n            m\n        }},')
        self.w('    }\n}')

    # ---- equality
    def eq(self, t, a, b, what):
        """a and b are references"""
        if isinstance(t, Msg):
            return f'eq_{self.tname(t)}({a}, {b})'
        r = 'enum' if isinstance(t, Enum) else RT[t]
        if r == 'enum':
            c = f'*{a} as u32 == *{b} as u32'
        elif r in ('f32', 'f64'):
            c = f'({a}).to_bits() == ({b}).to_bits()'
        elif r == 'String':
            return f'sym::check_eq(({a}).as_bytes(), ({b}).as_bytes(), c"{what}")'
        elif r == 'Vec<u8>':
            return f'sym::check_eq({a}, {b}, c"{what}")'
        else:
            c = f'*{a} == *{b}'
        return f'sym::check({c}, c"{what}")'

    def eqfunc(self, m):
        T = self.tname(m)
        self.w(f'fn eq_{T}(a: &fam{self.v}::{T}, b: &fam{self.v}::{T}) {{\n    let _ = (a, b);')
        for f in m.fields:
            F = snake(f.name)
            if f.card == 'one':
                self.w(f'    {self.eqref(f.type, f"a.{F}", f"b.{F}", f.cat + " field")};')
            elif f.card == 'list':
                self.w(f'    sym::check(a.{F}.len() == b.{F}.len(), c"length of a list");\n    for (v, w) in a.{F}.iter().zip(b.{F}.iter()) {{\n'
                       f'        {self.eq(f.type, "v", "w", f.cat + " element")};\n    }}')
            else:
                self.w(f'    sym::check(a.{F}.len() == b.{F}.len(), c"size of a map");\n    for (k, v) in &a.{F} {{\n        match b.{F}.get(k) {{\n'
                       f'            None => sym::check(false, c"key of a map"),\n            Some(w) => {self.eq(f.type, "v", "w", f.cat + " value of a map")},\n        }}\n    }}')
        self.w('}')

    def eqref(self, t, a, b, what):
        return self.eq(t, f'(&{a})', f'(&{b})', what)

    # ---- the specified wire form, by the library's own calls
    def put(self, t, e):
        """e is a reference"""
        if isinstance(t, Msg):
            return f'put_{self.tname(t)}(c, {e})'
        arg = e if self.base(t) in CALL else f'*{e} as u32' if isinstance(t, Enum) else f'*{e}'
        return f'let _ = Encoder::encode_{self.call(t)}(&mut *c, {arg})'

    def ordered(self, m):
        return [f for f in m.fields if f.card == 'one' and not isinstance(f.type, Msg)] + [f for f in m.fields if f.card == 'list'] + \
               [f for f in m.fields if f.card == 'map' or (f.card == 'one' and isinstance(f.type, Msg))]

    def putfunc(self, m):
        T = self.tname(m)
        self.w(f'fn put_{T}(c: &mut Out, x: &fam{self.v}::{T}) {{\n    let _ = (&c, x);')
        for f in self.ordered(m):
            F = snake(f.name)
            if f.card == 'one':
                self.w(f'    {self.put(f.type, f"(&x.{F})")};')
            elif f.card == 'list':
                self.w(f'    let _ = Encoder::encode_array(&mut *c, x.{F}.len(), {self.kind(f.type)});\n    for v in &x.{F} {{\n        {self.put(f.type, "v")};\n    }}')
            else:
                self.w(f'    let _ = Encoder::encode_map(&mut *c, x.{F}.len(), {self.kind(f.key)}, {self.kind(f.type)});\n    for (k, v) in &x.{F} {{\n'
                       f'        {self.put(f.key, "k")};\n        {self.put(f.type, "v")};\n    }}')
        self.w('}')

    # ---- the specified decoding, by the library's own calls
    def get(self, t, small):
        """an expression for a decoded t; returns from the function where that fails"""
        if isinstance(t, Msg):
            return f'match get_{self.tname(t)}(c, true) {{ Some(Some(v)) => v, _ => return None }}'
        b = self.base(t)
        at = 2 if b in CALL else 1 if b[0] in 'iu' else 0
        if small in ('fixed', 'nested'):
            s = {0: '', 1: 'one(c, 1, true); ', 2: 'short(c); ' if small == 'fixed' else 'if small { short(c) } else { one(c, 2, true) } '}[at]
        else:
            s = f'one(c, {at}, {small}); ' if at else ''
        e = f'Decoder::decode_{self.call(t)}(&mut *c).ok()?'
        if isinstance(t, Enum):
            arms = ''.join(f'{i} => {self.ty(t)}::{(t.name + "_" + v).upper()}, ' for i, v in enumerate(t.vals))
            e = f'match {e} {{ {arms}_ => return None }}'
        if b == 'bool' and small in ('fixed', 'nested'):
            # two values for each of many bools are too many
            s = 'notfalse(c); ' if small == 'fixed' else 'if small { notfalse(c) } '
        return f'{{ {s}{e} }}'

    def getkey(self, t, small):
        return '{ short(c); Decoder::decode_string(&mut *c).ok()? }' if t == 'string' else self.get(t, small)

    def errs(self, m):
        """an error in place of this message is explored (the same code for all of them)"""
        return m.name in ('S_bool', 'L_bool') or (self.thorough and len(m.fields) < 2)

    def parts(self, m):
        """the items a total harness covers: messages of many items are divided"""
        n = len(m.fields)
        if not m.o.get('full'):
            return [None]
        return [(i, i) for i in range(n)] + [(n, n)] if n > 5 else [(0, n)]

    def count(self, m):
        """the elements of a list or map that are explored"""
        if m.o.get('full'):
            return 1
        return 2 if self.thorough or m.name[2:] in ('bool', 'string', 'enum', 'list') else 1

    def getfunc(self, m):
        """None: an error; Some(None): a nil. Of a message with parts, only runs that end at the items LO..HI are left"""
        T, parts = self.tname(m), m.o.get('full')
        gen = '<const LO: usize, const HI: usize>' if parts else ''
        self.w(f'fn get_{T}{gen}(c: &mut In, small: bool) -> Option<Option<fam{self.v}::{T}>> {{\n    let _ = small;\n    if Decoder::decode_none(&mut *c) {{\n'
               f'        {"sym::assume(LO == 0);" if parts else ""}\n        return Some(None);\n    }}\n'
               f'    one(c, 2, {"small" if len(m.fields) < 2 else "true"});\n    {"" if self.errs(m) else "noerr(c);"}\n    if Decoder::decode_error(&mut *c).is_ok() {{\n        return None;\n    }}')
        sm = 'small' if len(m.fields) < 2 else 'fixed' if m.o.get('full') or len(m.fields) > 3 else 'nested'
        more = sm + ' || n > 1' if sm == 'small' else 'fixed'
        cnt = 'n == 1' if m.o.get('full') else f'n <= {self.count(m)}'
        for i, f in enumerate(self.ordered(m)):
            F = snake(f.name)
            if f.card == 'one':
                e = self.get(f.type, sm)
            elif f.card == 'list':
                e = f'''{{
        one(c, 3, true);
        let n = Decoder::decode_array(&mut *c, {self.kind(f.type)}).ok()?;
        sym::assume({cnt});
        let mut f = Vec::new();
        for _ in 0..n {{
            f.push({self.get(f.type, more)});
        }}
        f
    }}'''
            else:
                e = f'''{{
        if Decoder::decode_none(&mut *c) {{
            return None;
        }}
        one(c, 4, true);
        let n = Decoder::decode_map(&mut *c, {self.kind(f.key)}, {self.kind(f.type)}).ok()?;
        sym::assume({cnt});
        let mut f = HashMap::new();
        for _ in 0..n {{
            let k = {self.getkey(f.key, more)};
            let v = {self.get(f.type, more)};
            f.insert(k, v);
        }}
        f
    }}'''
            if parts:
                self.w(f'    sym::assume(HI >= {i});\n    let f_{F} = match (|c: &mut In| Some({e}))(&mut *c) {{\n        Some(v) => v,\n        None => {{\n'
                       f'            sym::assume(LO <= {i});\n            return None;\n        }}\n    }};')
            else:
                self.w(f'    let f_{F} = {e};')
        self.w((f'    sym::assume(HI >= {len(m.fields)});\n' if parts else '') +
               f'    Some(Some(fam{self.v}::{T} {{ ' + ', '.join(snake(f.name) + ': f_' + snake(f.name) for f in m.fields) + ' }))\n}')

    # ---- harnesses
    def name(self, what, m):
        return f'h_c28_v{self.v}_{what}_{m.name}'

    def trip(self, m):
        T, n = self.tname(m), self.name('trip', m)
        tail = 'let t = sym::bytes(c"tail", 0, 1 << 20);\n    buf.extend_from_slice(t);' if m.fields and not m.o.get('notail') else ''
        self.w(f'''#[no_mangle]
pub extern "C" fn {n}() {{
    let x = mk_{T}(false);
    let mut c = Cursor::new(Vec::new());
    sym::check(fam{self.v}::Encode::encode(&x, &mut c).is_ok(), c"a message encodes");
    let mut d = Cursor::new(Vec::new());
    put_{T}(&mut d, &x);
    let mut buf = c.into_inner();
    sym::check_eq(&buf, d.get_ref(), c"the specified wire form");
    let end = buf.len() as u64;
    {tail}
    let mut r = Cursor::new(&mut buf);
    let y = <fam{self.v}::{T} as fam{self.v}::Decode>::decode(&mut r);
    match &y {{
        Ok(Some(y)) => eq_{T}(&x, y),
        _ => sym::check(false, c"what was encoded decodes"),
    }}
    sym::check(r.position() == end, c"decoding ends where the message ends");
    forget((x, y));
    sym::reach(c"done");
}}
''')
        return n, None, {'w': 9 if m.name in ('V_string', 'L_string') else 3}, ('done',)

    def total(self, m, part=None):
        T, n = self.tname(m), self.name('total', m) + (f'_{part[0]}' if part else '')
        self.w(f'''#[no_mangle]
pub extern "C" fn {n}() {{
    let mut v = sym::vec(c"in", 0, 1 << 33, 1 << 33);
    let mut c = Cursor::new(&mut v);
    let want = get_{T}{f'::<{part[0]}, {part[1]}>' if part else ''}(&mut c, false);
    let end = c.position();
    let mut c = Cursor::new(&mut v);
    let got = <fam{self.v}::{T} as fam{self.v}::Decode>::decode(&mut c);
    match (&want, &got) {{
        (None, Err(_)) => sym::reach(c"rejected"),
        (Some(None), Ok(None)) => sym::check(c.position() == end, c"decoding ends where the message ends"),
        (Some(Some(a)), Ok(Some(b))) => {{
            sym::check(c.position() == end, c"decoding ends where the message ends");
            eq_{T}(a, b);
            sym::reach(c"decoded");
        }}
        _ => sym::check(false, c"an error exactly if a field is missing, cut off or of another kind, nothing exactly for a nil"),
    }}
    forget((want, got));
}}
''')
        return n, None, {'w': 10 if part else 5}, ('decoded',) if not m.fields else ('rejected',) if part and part[1] < len(m.fields) else ('decoded',) if part and part[0] == len(m.fields) else ('decoded', 'rejected')

    def alloc(self, m):
        T, n = self.tname(m), self.name('alloc', m)
        self.w(f'''#[no_mangle]
pub extern "C" fn {n}() {{
    let mut v = sym::vec(c"in", 8, 8, 8);
    let mut c = Cursor::new(&mut v);
    sym::alloc_limit(1 << 16, c"memory use is bounded by the input");
    let got = <fam{self.v}::{T} as fam{self.v}::Decode>::decode(&mut c);
    forget(got);
    sym::reach(c"done");
}}
''')
        return n, None, {'w': 1}, ('done',)

    def error(self, m, what='error', before=''):
        T, n = self.tname(m), self.name(what, m)
        self.w(f'''#[no_mangle]
pub extern "C" fn {n}() {{
    let text = sym::str(c"text", 0, 100);
    let mut c = Cursor::new(Vec::new());
    {before}
    let _ = Encoder::encode_error(&mut c, Box::<dyn std::error::Error>::from(text));
    let mut buf = c.into_inner();
    let mut r = Cursor::new(&mut buf);
    match <fam{self.v}::{T} as fam{self.v}::Decode>::decode(&mut r) {{
        Ok(_) => sym::check(false, c"an error in place of a message is an error"),
        Err(e) => {{
            let s = e.to_string();
            sym::check_eq(s.as_bytes(), text.as_bytes(), c"an error in place of a message is that error");
        }}
    }}
    sym::reach(c"done");
}}
''')
        return n, None, {'w': 2}, ('done',)

    def text(self):
        self.out = [PRELUDE.replace('FAM', f'fam{self.v}')]
        for m in self.all:
            self.mkfunc(m)
            self.eqfunc(m)
            self.putfunc(m)
            self.getfunc(m)
        rows = []
        for m in self.msgs:
            rows.append(self.trip(m))
            for part in self.parts(m):
                rows.append(self.total(m, part))
            if any(f.card != 'one' for f in m.fields) and not m.o.get('full'):
                rows.append(self.alloc(m))
            if m.name in ('S_bool', 'N_two', 'L_string'):
                rows.append(self.error(m))
            if m.name == 'N_three':
                rows.append(self.error(m, 'nested', 'let _ = Encoder::encode_bool(&mut c, sym::bool(c"x"));'))
        return '\n'.join(self.out), rows


PRELUDE = '''//! written by engine/rsgen.py
#![allow(warnings)]
use crate::amap::HashMap;
use crate::FAM;
use crate::sym;
use polyglot_rs::{Decoder, Encoder, Kind};
use std::ffi::CStr;
use std::io::Cursor;

type Out = Cursor<Vec<u8>>;
type In<'a> = Cursor<&'a mut Vec<u8>>;
const LEN: usize = (1 << 32) - 1;

fn forget<T>(v: T) {
    std::mem::forget(v)
}
fn less(n: &CStr, k: u32) -> u32 {
    let v = sym::u32(n);
    sym::assume(v < k);
    v
}
fn u32_(n: &CStr, small: bool) -> u32 {
    let v = sym::u32(n);
    sym::assume(!small || v < 128);
    v
}
fn i32_(n: &CStr, small: bool) -> i32 {
    let v = sym::i32(n);
    sym::assume(!small || (v > -64 && v < 64));
    v
}
fn u64_(n: &CStr, small: bool) -> u64 {
    let v = sym::u64(n);
    sym::assume(!small || v < 128);
    v
}
fn i64_(n: &CStr, small: bool) -> i64 {
    let v = sym::i64(n);
    sym::assume(!small || (v > -64 && v < 64));
    v
}
fn string_(n: &CStr, small: bool) -> String {
    sym::str(n, 0, if small { 100 } else { LEN }).to_string()
}
fn string2(n: &CStr) -> String {
    sym::str(n, 2, 2).to_string()
}
fn bytes2(n: &CStr) -> Vec<u8> {
    sym::vec(n, 2, 2, 2)
}
fn bytes_(n: &CStr, small: bool) -> Vec<u8> {
    let m = if small { 100 } else { LEN };
    sym::vec(n, 0, m, m)
}
/// texts whose comparison decides about paths are short
fn key_(n: &CStr) -> String {
    let l = sym::choose(c"key.len", 4);
    sym::str(n, l, l).to_string()
}
fn short(c: &In) {
    let (p, v) = (c.position().wrapping_add(2) as usize, &**c.get_ref());
    sym::assume(p >= v.len() || v[p] < 4);
}
fn notfalse(c: &In) {
    let (p, v) = (c.position().wrapping_add(1) as usize, &**c.get_ref());
    sym::assume(p >= v.len() || v[p] != 0);
}
/// no error is here
fn noerr(c: &In) {
    let (p, v) = (c.position() as usize, &**c.get_ref());
    sym::assume(p >= v.len() || v[p] != 6);
}
/// the number at this distance has one byte, if small
fn one(c: &In, at: u64, small: bool) {
    if small {
        let (p, v) = (c.position().wrapping_add(at) as usize, &**c.get_ref());
        sym::assume(p >= v.len() || v[p] < 128);
    }
}
'''
AMAP = '''//! The part of std's HashMap that generated code uses, as a list of entries:
//! the real one hashes its keys with a random seed.
use std::borrow::Borrow;

pub struct HashMap<K, V> {
    ents: Vec<(K, V)>,
}

impl<K: Eq, V> HashMap<K, V> {
    pub fn new() -> Self {
        HashMap { ents: Vec::new() }
    }
    pub fn with_capacity(n: usize) -> Self {
        HashMap { ents: Vec::with_capacity(n) }
    }
    pub fn reserve(&mut self, n: usize) {
        self.ents.reserve(n)
    }
    pub fn len(&self) -> usize {
        self.ents.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ents.is_empty()
    }
    pub fn get<Q: Eq + ?Sized>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> {
        for (a, v) in &self.ents {
            if a.borrow() == k {
                return Some(v);
            }
        }
        None
    }
    pub fn get_mut<Q: Eq + ?Sized>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
        for (a, v) in &mut self.ents {
            if (*a).borrow() == k {
                return Some(v);
            }
        }
        None
    }
    pub fn contains_key<Q: Eq + ?Sized>(&self, k: &Q) -> bool where K: Borrow<Q> {
        self.get(k).is_some()
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        for (a, w) in &mut self.ents {
            if *a == k {
                return Some(std::mem::replace(w, v));
            }
        }
        self.ents.push((k, v));
        None
    }
    pub fn iter(&self) -> Iter<'_, K, V> {
        Iter { i: self.ents.iter() }
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> {
        self.ents.iter().map(|e| &e.0)
    }
    pub fn values(&self) -> impl Iterator<Item = &V> {
        self.ents.iter().map(|e| &e.1)
    }
}

impl<K: Eq, V> Default for HashMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}

impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m = Self::new();
        for (k, v) in it {
            m.insert(k, v);
        }
        m
    }
}

pub struct Iter<'a, K, V> {
    i: std::slice::Iter<'a, (K, V)>,
}

impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        self.i.next().map(|e| (&e.0, &e.1))
    }
}

impl<'a, K: Eq, V> IntoIterator for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}

impl<K, V> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = std::vec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.ents.into_iter()
    }
}
'''

BOUNDS = ['schemas: the family of engine/schemas.py without the messages that contain themselves (Rust has no such struct): every scalar kind and enums as '
          'single field, list and map value, every map key kind, nested, optional, oneof and empty messages, one schema file',
          'values: every value of a field that stands alone (payloads to 2^32-1 bytes); beside other fields or elements: integers of one varint byte, payloads to 100 bytes',
          'lists and maps: at most 2 elements (1 beside other fields)', 'inputs of the decoders: any length to 2^33',
          'memory: inputs of 8 bytes, no single allocation over 64 KiB']


def items(text, names):
    """{type of the family: what the text says of it}; '' stands for the rest. Comments and spacing aside"""
    text = re.sub(r'^\s*//.*$', '', text, flags=re.M)
    parts, depth, at = [], 0, 0
    for m in re.finditer(r'[{};]', text):
        depth += {'{': 1, '}': -1}.get(m[0], 0)
        if depth == 0 and m[0] != '{':
            parts.append(text[at:m.end()])
            at = m.end()
    parts.append(text[at:])
    out = {}
    for p in parts:
        here = [w for w in re.findall(r'\w+', p.split('{')[0]) if w in names]
        for n in here or ['']:
            out[n] = out.get(n, []) + p.split()
    return out


def differing(gens, texts):
    """the messages of the second generator whose code, or that of types they use, is not that of the first"""
    names = {g.tname(t) for g in gens for t in g.all + g.enums + [e for m in g.all for e in m.enums]}
    a, b = items(texts[1], names), items(texts[2], names)
    uses = {n: {w for w in re.findall(r'\w+', ' '.join(b.get(n, []))) if w in names} for n in names}

    def differs(n, seen):
        seen.add(n)
        return a.get(n) != b.get(n) or any(differs(u, seen) for u in uses[n] - seen)
    return [m for m in gens[1].msgs if a.get('') != b.get('') or differs(gens[1].tname(m), set())]


def run(prop):
    from report import Check
    ck = Check(prop)
    gens = [Gen(1, ck.thorough), Gen(2, ck.thorough)]
    go = gengo.GenWorkspace(gens)
    ws = None
    try:
        texts = {}
        for g in gens:
            why = go.generate(f'rs{g.v}', f'fam{g.v}.rs')
            if why:
                ck.violation(f'rs{g.v}', why, 'schema: the family of engine/schemas.py', {'engine': 'generator', 'generator': f'rs{g.v}', 'schema': g.desc})
            else:
                texts[g.v] = open(f'{go.dir}/fam{g.v}.rs').read()
        empty = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'bounds': BOUNDS}
        if ck.violations:
            return ck.finish('model_checking', empty, [])
        two = differing(gens, texts)
        if two:
            gens[1].msgs = two
        else:
            gens = gens[:1]
        files, table = {'amap.rs': AMAP}, []
        for g in gens:
            files[f'fam{g.v}.rs'] = texts[g.v].replace('std::collections::HashMap', 'crate::amap::HashMap')
            files[f'gen{g.v}.rs'], rows = g.text()
            table += rows
        ws = rsrun.Workspace(extra=files)
        for g in gens:
            why = ws.compiles(texts[g.v])
            if why:
                ck.violation(f'rs{g.v}', why, 'schema: the family of engine/schemas.py', {'engine': 'generator', 'generator': f'rs{g.v}', 'schema': g.desc})
        if ck.violations:
            return ck.finish('model_checking', empty, [])
        t1 = time.time()
        ll = ws.encode()
        enc_s = time.time() - t1
        fut = ThreadPoolExecutor(1).submit(ws.replay_bin)
        stop = ck.t0 + BUDGET[ck.tier]
        tasks = [(t[0], options(ck, t[2], stop)) for t in sorted(table, key=lambda t: -t[2].get('w', 0))]
        rs = rsrun.explore(ll, tasks, progress=bool(os.environ.get('VERIF_PROGRESS')))
        fut.result()
        return conclude(ck, ws, rs, table, BOUNDS, ASSUME + [
            'the family stands for all schemas: the generators treat fields alike by kind, cardinality and position',
            'std::collections::HashMap is a map: a list of entries stands for it; the derive of num_enum (not installed here) gives what its documentation says'
            , 'the code of both modules\' generators is compared; of the second, what differs is explored: ' + (', '.join(m.name for m in two) or 'nothing')], enc_s)
    finally:
        go.close()
        if ws:
            ws.close()
