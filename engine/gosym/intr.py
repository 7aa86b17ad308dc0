"""Intrinsics: the harness API (package sym), and stand-ins for the parts of the
standard library that are not encoded from source."""
import z3
from . import mem as M
from .mem import add, sub, isc, bv
from .ex import *


class Intrinsics:
    def __init__(self):
        self.t = {}
        self.cache = {}
        self.redirect = {}

    def find(self, fn):
        i = fn['id']
        if i in self.cache:
            return self.cache[i]
        n = fn['n']
        h = self.t.get(n)
        if h is None and '/sym.' in n:
            h = self.t.get('sym.' + n.rsplit('.', 1)[1])
        self.cache[i] = h
        return h

    def reg(self, *names):
        def d(f):
            for n in names:
                self.t[n] = f
            return f
        return d


I = Intrinsics()


def name_of(ex, st, s):
    b = ex.strbytes(st, s)
    return b.decode()


def fresh_name(st, n):
    k = st.names.get(n, 0)
    st.names[n] = k + 1
    return f'{n}#{k}'


def scalar(w):
    def f(ex, st, fr, fn, args, ins):
        n = fresh_name(st, name_of(ex, st, args[0]))
        v = z3.BitVec(n, w)
        st.inputs.append((n, 'int', v, w))
        return v
    return f


for nm, w in (('U8', 8), ('U16', 16), ('U32', 32), ('U64', 64), ('I32', 32), ('I64', 64), ('F32', 32), ('F64', 64)):
    I.t['sym.' + nm] = scalar(w)


@I.reg('sym.Bool')
def _(ex, st, fr, fn, args, ins):
    n = fresh_name(st, name_of(ex, st, args[0]))
    v = z3.BitVec(n, 8)
    st.inputs.append((n, 'int', v, 8))
    ex.addpc(st, z3.ULE(v, 1))
    return v == 1


@I.reg('sym.Int')
def _(ex, st, fr, fn, args, ins):
    n = fresh_name(st, name_of(ex, st, args[0]))
    lo, hi = args[1], args[2]
    sg = lambda x: x - (1 << 64) if x >> 63 else x
    v = ex.lia.named(n, sg(lo), sg(hi)) if isc(lo) and isc(hi) else z3.BitVec(n, 64)
    st.inputs.append((n, 'int', v, 'size'))
    ex.addpc(st, z3.And(bv(lo) <= v, v <= bv(hi)))
    return v


@I.reg('sym.Choose')
def _(ex, st, fr, fn, args, ins):
    k = ex.choose(st, args[1])
    n = fresh_name(st, name_of(ex, st, args[0]))
    st.inputs.append((n, 'const', k, 64))
    return k


def mkbytes(ex, st, n, lo, hi, maxcap, own=''):
    if isc(lo) and isc(hi) and lo == hi:
        ln = lo
    else:
        ln = ex.lia.named(n + '.len', lo if isc(lo) else 0, ex.ub(hi))
        ex.addpc(st, z3.And(z3.ULE(bv(lo), ln), z3.ULE(ln, bv(hi))))
    cap = ln
    if maxcap is not None:
        cap = ex.lia.named(n + '.cap', 0, ex.ub(maxcap))
        ex.addpc(st, z3.And(z3.ULE(bv(ln), cap), z3.ULE(cap, bv(maxcap))))
    a = M.arr(n)
    oid = ex.new(st, OBytes(a, cap, own))
    st.inputs.append((n, 'bytes', (a.a, ln, cap), 0))
    return oid, ln, cap


@I.reg('sym.Bytes')
def _(ex, st, fr, fn, args, ins):
    n = fresh_name(st, name_of(ex, st, args[0]))
    o, ln, cap = mkbytes(ex, st, n, args[1], args[2], None)
    return Slice(o, (), 0, ln, cap)


@I.reg('sym.BytesCap')
def _(ex, st, fr, fn, args, ins):
    n = fresh_name(st, name_of(ex, st, args[0]))
    o, ln, cap = mkbytes(ex, st, n, args[1], args[2], args[3])
    return Slice(o, (), 0, ln, cap)


@I.reg('sym.Str')
def _(ex, st, fr, fn, args, ins):
    n = fresh_name(st, name_of(ex, st, args[0]))
    o, ln, cap = mkbytes(ex, st, n, args[1], args[2], None, 'ro')
    return Str(o, 0, ln)


@I.reg('sym.Assume')
def _(ex, st, fr, fn, args, ins):
    ex.assume(st, args[0])


@I.reg('sym.Assert')
def _(ex, st, fr, fn, args, ins):
    ex.assert_(st, args[0], name_of(ex, st, args[1]))


@I.reg('sym.AllocLimit')
def _(ex, st, fr, fn, args, ins):
    st.pools['alloc'] = args[0]


@I.reg('sym.AllocDone')
def _(ex, st, fr, fn, args, ins):
    st.pools.pop('alloc', None)


@I.reg('sym.Reach')
def _(ex, st, fr, fn, args, ins):
    st.labels.add(name_of(ex, st, args[0]))


def assert_eq(ex, st, a, b, msg):
    ex.assert_(st, ex.norm(M.eq_(a.len, b.len)), msg + ' (length)')
    n = a.len if isc(a.len) else b.len
    ma, oa = ex.smem(st, a)
    mb, ob = ex.smem(st, b)
    if isc(n) and n <= 24:
        c = True
        for i in range(n):
            x, y = M.readp(ma, add(oa, i)), M.readp(mb, add(ob, i))
            if isc(x) and isc(y):
                if x != y:
                    c = False
                    break
                continue
            c = ex.conj(c, bv(x, 8) == bv(y, 8))
        ex.assert_(st, c, msg + ' (content)')
        return
    if a.obj == b.obj and ma is mb:
        d = sub(oa, ob)
        if isc(d) and d == 0:
            ex.assert_(st, True, msg + ' (content)')
            return
    ex.fresh += 1
    i = z3.BitVec(f'sk!{ex.fresh}', 64)
    ex.lia.index(i, 0, ex.ub(n))
    x, y = M.read(ma, add(oa, i)), M.read(mb, add(ob, i))
    ex.assert_(st, z3.Implies(z3.ULT(i, bv(n)), bv(x, 8) == bv(y, 8)), msg + ' (content)', keep=False)


@I.reg('sym.AssertBytesEq', 'sym.AssertStrEq')
def _(ex, st, fr, fn, args, ins):
    assert_eq(ex, st, args[0], args[1], name_of(ex, st, args[2]))


@I.reg('sym.Clone')
def _(ex, st, fr, fn, args, ins):
    s = args[0]
    m, off = ex.smem(st, s)
    o = ex.new(st, OBytes(M.copy(M.ZERO, 0, m, off, s.len), s.len))
    return Slice(o, (), 0, s.len, s.len)


@I.reg('sym.CloneStr')
def _(ex, st, fr, fn, args, ins):
    s = args[0]
    m, off = ex.smem(st, s)
    o = ex.new(st, OBytes(M.copy(M.ZERO, 0, m, off, s.len), s.len))
    return Str(o, 0, s.len)


@I.reg('sym.Concat')
def _(ex, st, fr, fn, args, ins):
    a, b = args
    ma, oa = ex.smem(st, a)
    mb, ob = ex.smem(st, b)
    n = add(a.len, b.len)
    m = M.copy(M.ZERO, 0, ma, oa, a.len)
    m = M.copy(m, a.len, mb, ob, b.len)
    return Slice(ex.new(st, OBytes(m, n)), (), 0, n, n)


@I.reg('sym.AliasStr')
def _(ex, st, fr, fn, args, ins):
    s = args[0]
    return Str(s.obj, s.off, s.len)


@I.reg('sym.Rest')
def _(ex, st, fr, fn, args, ins):
    v = args[0]
    if isinstance(v, Iface) and isinstance(v.v, Ptr):
        o = st.heap[v.v.obj]
        if isinstance(o, OCells):
            x = o.val
            for p in v.v.path:
                x = ex.sel(st, x, p)
            if isinstance(x, tuple) and len(x) == 1 and isinstance(x[0], Slice):
                return (x[0], True)
    return (NILS, False)


@I.reg('sym.Flip')
def _(ex, st, fr, fn, args, ins):
    s = args[0]
    if s.obj is None:
        return None
    m, off = ex.smem(st, s)
    ex.setmem(st, s, M.xorrange(m, off, s.len))


@I.reg('sym.Tail')
def _(ex, st, fr, fn, args, ins):
    """b[len(b):cap(b)]"""
    s = args[0]
    if s.obj is None:
        return NILS
    return Slice(s.obj, s.path, add(s.off, s.len), sub(s.cap, s.len), sub(s.cap, s.len))


@I.reg('sym.SameBase')
def _(ex, st, fr, fn, args, ins):
    """a is a suffix-position view: same backing object as b"""
    a, b = args
    return a.obj is not None and a.obj == b.obj and a.path == b.path


@I.reg('sym.Reaches')
def _(ex, st, fr, fn, args, ins):
    v, s = args
    seen = set()

    def go(v):
        if isinstance(v, tuple):
            return any(go(x) for x in v)
        if isinstance(v, Iface):
            return go(v.v)
        oid = None
        if isinstance(v, (Slice, Ptr, Str, MapRef)):
            oid = v.obj
        if isinstance(v, Fn):
            return any(go(x) for x in v.binds)
        if oid is None or oid in seen:
            return False
        if oid == s.obj:
            return True
        seen.add(oid)
        o = st.heap[oid]
        if isinstance(o, OCells):
            return go(o.val)
        if isinstance(o, OMap):
            return any(go(k) or go(x) for k, x in o.ents)
        return False
    return go(v)


# ---------------------------------------------------------------- std library
def ident(ex, st, fr, fn, args, ins):
    return args[0]


for n in ('math.Float32bits', 'math.Float64bits', 'math.Float32frombits', 'math.Float64frombits'):
    I.t[n] = ident


def nop(ex, st, fr, fn, args, ins):
    return None


for n in ('(*sync.Mutex).Lock', '(*sync.Mutex).Unlock', '(*sync.RWMutex).Lock', '(*sync.RWMutex).Unlock',
          '(*sync.RWMutex).RLock', '(*sync.RWMutex).RUnlock', 'runtime.KeepAlive', 'runtime.GC', 'runtime.Gosched'):
    I.t[n] = nop


def pool_key(p):
    return ('pool', p.obj, p.path)


@I.reg('(*sync.Pool).Put')
def _(ex, st, fr, fn, args, ins):
    p, v = args
    if v is None:
        return None
    k = pool_key(p)
    st.pools[k] = st.pools.get(k, ()) + (v,)


@I.reg('(*sync.Pool).Get')
def _(ex, st, fr, fn, args, ins):
    p = args[0]
    k = pool_key(p)
    items = st.pools.get(k, ())
    # any returned object, or none (the collector may have dropped them)
    uniq = []
    for i, v in enumerate(items):
        uniq.append(i)
    c = ex.choose(st, len(items) + 1)
    st.trace = None
    n = fresh_name(st, 'pool!')
    st.inputs.append((n, 'const', c, 64))
    if c > 0:
        i = len(items) - c
        st.pools[k] = items[:i] + items[i + 1:]
        return items[i]
    # New
    o = st.heap[p.obj]
    v = o.val
    for q in p.path:
        v = ex.sel(st, v, q)
    newf = None
    pt = None
    for t in ex.p.types:
        if t['s'] == 'sync.Pool':
            pt = ex.p.types[t['u']]
    idx = [i for i, f in enumerate(pt['f']) if f['n'] == 'New'][0]
    newf = v[idx]
    if newf is None:
        return None
    f = ex.p.fns[newf.id]
    ex.push(st, f, [], newf.binds, ins.get('r'), 'call')
    return CALLED


@I.reg('(*sync.Once).Do')
def _(ex, st, fr, fn, args, ins):
    k = ('once', args[0].obj, args[0].path)
    if st.pools.get(k):
        return None
    st.pools[k] = (1,)
    f = ex.p.fns[args[1].id]
    ex.push(st, f, [], args[1].binds, None, 'call')
    return CALLED


def atomic_method(fn):
    pass


@I.reg('errors.New')
def _(ex, st, fr, fn, args, ins):
    ex.fresh += 1
    st.nid += 1
    return Iface(('opaque', 'errors.New', st.nid), args[0])


def opq(ex, st, what):
    ex.fresh += 1
    n = f'opq!{ex.fresh}'
    ln = z3.BitVec(n + '.len', 64)
    ex.lia.index(ln, 0, 1 << 20)
    st.pc.append(z3.ULT(ln, 1 << 20))
    st.model = None
    o = ex.new(st, OBytes(M.arr(n), ln))
    return Str(o, 0, ln)


@I.reg('fmt.Errorf')
def _(ex, st, fr, fn, args, ins):
    wrapped = None
    st.nid += 1
    # %w is honoured when the format holds it: the last error argument
    f = ex.strbytes(st, args[0])
    if f and b'%w' in f and args[1].obj is not None:
        vals = st.heap[args[1].obj].val
        for v in vals:
            if isinstance(v, Iface) and (isinstance(v.t, tuple) or 'Error' in ex.p.mtab.get(str(v.t), {})):
                wrapped = v
    return Iface(('opaque', 'fmt.Errorf', st.nid, ), opq(ex, st, 'errorf'))


@I.reg('fmt.Sprintf', 'fmt.Sprint', 'fmt.Sprintln')
def _(ex, st, fr, fn, args, ins):
    return opq(ex, st, 'sprintf')


@I.reg('math/bits.Len64', 'math/bits.Len', 'math/bits.Len32', 'math/bits.Len16', 'math/bits.Len8')
def _(ex, st, fr, fn, args, ins):
    x = args[0]
    w = {'Len64': 64, 'Len': 64, 'Len32': 32, 'Len16': 16, 'Len8': 8}[fn['n'].rsplit('.', 1)[1]]
    if isc(x):
        return x.bit_length()
    r = z3.BitVecVal(0, 64)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i + 1, 64), r)
    return M.simp(r)


@I.reg('bytes.Equal')
def _(ex, st, fr, fn, args, ins):
    a, b = args
    return ex.streq(st, a if isinstance(a, Str) else a, b)


@I.reg('unicode.IsUpper')
def _(ex, st, fr, fn, args, ins):
    return rune_pred(ex, st, args[0], lambda c: chr(c).isupper() and chr(c).isalpha())


def ascii(ex, st, r):
    return not isc(r) and ex.branch(st, z3.ULT(r, 0x80))


def rune_pred(ex, st, r, f):
    if ascii(ex, st, r):
        return ex.norm(z3.Or([r == c for c in range(128) if f(c)]))
    if not isc(r):
        r = ex.concretize(st, r, 300, 'rune')
    r = ex.sx(r, 32)
    return 0 <= r <= 0x10ffff and f(r)


import unicodedata


@I.reg('unicode.IsLower')
def _(ex, st, fr, fn, args, ins):
    return rune_pred(ex, st, args[0], lambda c: unicodedata.category(chr(c)) == 'Ll')


@I.reg('unicode.IsLetter')
def _(ex, st, fr, fn, args, ins):
    return rune_pred(ex, st, args[0], lambda c: unicodedata.category(chr(c))[0] == 'L')


@I.reg('unicode.IsDigit')
def _(ex, st, fr, fn, args, ins):
    return rune_pred(ex, st, args[0], lambda c: unicodedata.category(chr(c)) == 'Nd')


def rune_map(ex, st, r, f):
    if ascii(ex, st, r):
        e = r
        for c in range(128):
            u = ord(f(chr(c)))
            if u != c:
                e = z3.If(r == c, z3.BitVecVal(u, r.size()), e)
        return M.simp(e)
    if not isc(r):
        r = ex.concretize(st, r, 300, 'rune')
    c = ex.sx(r, 32)
    if 0 <= c <= 0x10ffff and not 0xd800 <= c < 0xe000:
        s = f(chr(c))
        if len(s) == 1:
            return ord(s)
    return r


@I.reg('unicode.ToUpper')
def _(ex, st, fr, fn, args, ins):
    return rune_map(ex, st, args[0], str.upper)


@I.reg('unicode.ToLower')
def _(ex, st, fr, fn, args, ins):
    return rune_map(ex, st, args[0], str.lower)


@I.reg('internal/abi.NoEscape')
def _(ex, st, fr, fn, args, ins):
    return args[0]


@I.reg('unicode/utf8.DecodeRuneInString')
def _(ex, st, fr, fn, args, ins):
    r = ex.rune_at(st, args[0], 0)
    return (0xfffd, 0) if r is None else r


# ---------------------------------------------------------------- internal/bytealg (assembly in the real library)
@I.reg('internal/bytealg.MakeNoZero')
def _(ex, st, fr, fn, args, ins):
    """what it holds is unspecified, but its callers overwrite all they show"""
    n = args[0]
    if ex.branch(st, n > 1 << 47 if isc(n) else z3.UGT(bv(n), bv(1 << 47))):
        raise GoPanic('makeslice: len out of range')
    ex.alloc_hook(st, n, 1)
    return Slice(ex.new(st, OBytes(M.ZERO, n)), (), 0, n, n)


def at(ex, st, s, i):
    m, off = ex.smem(st, s)
    return M.readp(m, M.add(off, i))


def same(a, b):
    if isc(a) and isc(b):
        return a == b
    c = z3.simplify(bv(a, 8) == bv(b, 8))
    return True if z3.is_true(c) else False if z3.is_false(c) else c


def below(ex, st, i, n):
    """i < n, for a count i of a scan"""
    if isc(n):
        return i < n
    if i > 48:
        raise PathEnd('bound', 'scan of more than 48 bytes')
    return ex.branch(st, z3.ULT(bv(i), bv(n)))


def hits(ex, st, s, c):
    """for each byte of s, whether it is c; None if there may be many"""
    if not isc(s.len) or s.len > 64:
        return None
    return [same(at(ex, st, s, i), c) for i in range(s.len)]


def num(x):
    return x if isc(x) else M.simp(x)


@I.reg('internal/bytealg.IndexByte', 'internal/bytealg.IndexByteString')
def _(ex, st, fr, fn, args, ins):
    s, c = args
    h = hits(ex, st, s, c)
    if h is not None:
        r = (1 << 64) - 1
        for i in reversed(range(len(h))):
            r = i if h[i] is True else r if h[i] is False else z3.If(h[i], bv(i), bv(r))
        return num(r)
    i = 0
    while below(ex, st, i, s.len):
        if ex.branch(st, same(at(ex, st, s, i), c)):
            return i
        i += 1
    return (1 << 64) - 1


@I.reg('internal/bytealg.Count', 'internal/bytealg.CountString')
def _(ex, st, fr, fn, args, ins):
    s, c = args
    h = hits(ex, st, s, c)
    if h is not None:
        n = 0
        for x in h:
            n = M.add(n, x if isinstance(x, bool) else z3.If(x, bv(1), bv(0)))
        return num(n)
    i = n = 0
    while below(ex, st, i, s.len):
        n += bool(ex.branch(st, same(at(ex, st, s, i), c)))
        i += 1
    return n


@I.reg('internal/bytealg.Index', 'internal/bytealg.IndexString')
def _(ex, st, fr, fn, args, ins):
    a, b = args
    n = ex.concretize(st, b.len, 16, 'length searched for')
    i = 0
    while i + n == 0 or below(ex, st, i + n - 1, a.len):
        if all(ex.branch(st, same(at(ex, st, a, i + j), at(ex, st, b, j))) for j in range(n)):
            return i
        i += 1
    return (1 << 64) - 1


@I.reg('internal/bytealg.Compare')
def _(ex, st, fr, fn, args, ins):
    a, b = args
    i = 0
    while True:
        x, y = below(ex, st, i, a.len), below(ex, st, i, b.len)
        if not x or not y:
            return 0 if x == y else 1 if x else (1 << 64) - 1
        p, q = at(ex, st, a, i), at(ex, st, b, i)
        if ex.branch(st, M.ult_(p, q, 8)):
            return (1 << 64) - 1
        if ex.branch(st, M.ult_(q, p, 8)):
            return 1
        i += 1
