"""What the executed JavaScript finds in its surroundings: the built-in objects as far
as they are modelled, and the harness interface (module sym)."""
import math, struct
import z3
from gosym import mem as M
from gosym.mem import add, sub, isc, bv
from gosym.ex import PathEnd
from llsym.intr import facts, utf8_exact, utf8_pred, content_eq, U8MAX
from .vals import *

KINDS = {'Uint8Array': 1, 'Int8Array': 1, 'Uint8ClampedArray': 1, 'Uint16Array': 2, 'Int16Array': 2, 'Uint32Array': 4, 'Int32Array': 4,
         'Float32Array': 4, 'Float64Array': 8, 'BigInt64Array': 8, 'BigUint64Array': 8}
ERRORS = ('TypeError', 'RangeError', 'ReferenceError', 'SyntaxError', 'EvalError', 'URIError')
MAXBUF = 1 << 40


def A(args, i):
    return args[i] if i < len(args) else UNDEF


# ---------------------------------------------------------------- numbers as bits
def sx8(ex, b):
    """an unsigned byte as a number"""
    return b if isc(b) else ex.mk(z3.ZeroExt(56, b), 0, 255)


def bytes_le(t, w):
    if isc(t):
        return [(t >> 8 * i) & 255 for i in range(w // 8)]
    return [M.simp(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(w // 8)]


def concat_le(bs):
    if all(isc(b) for b in bs):
        return sum(b << 8 * i for i, b in enumerate(bs))
    if len(bs) == 1:
        return bs[0]
    return z3.simplify(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))


def intbits(ex, v, w):
    """ToInt: the low w bits of a number"""
    v = ex.tonum(v)
    if isinstance(v, float):
        v = 0 if v != v or math.isinf(v) else int(v)
    if isinstance(v, Rat):
        v = ex.trunc(v)
    if isinstance(v, Flt):
        ex.unsup('integer conversion of a symbolic double')
    if iscint(v):
        return v & ((1 << w) - 1)
    return M.simp(z3.Extract(w - 1, 0, v.t)) if w < 64 else v.t


def f32bits(ex, v):
    """the bits of the number rounded to a float"""
    if isinstance(v, (int, float)):
        try:
            return struct.unpack('<I', struct.pack('<f', v))[0]
        except OverflowError:
            return 0x7f800000 if v > 0 else 0xff800000
    if isinstance(v, Flt) and v.w == 32:
        b = bv(v.b, 32)
        return anynan(ex, b)
    key = ('f32', v.b.get_id() if isinstance(v, Flt) and not isc(v.b) else ex.T(v).get_id() if isinstance(v, SInt) else None)
    c = ex.st.pools.setdefault('fcache', {})
    if key[1] is not None and key in c:
        return c[key][0]
    r = z3.fpFPToFP(z3.RNE(), ex.fp(v), z3.Float32())
    b = ex.freshbv('f32', 32)
    ex.addpc(ex.st, z3.fpBVToFP(b, z3.Float32()) == r)
    c[key] = (b, v)
    return b


def f64bits(ex, v):
    if isinstance(v, (int, float)):
        return struct.unpack('<Q', struct.pack('<d', v))[0]
    if isinstance(v, Flt) and v.w == 64:
        return anynan(ex, bv(v.b, 64))
    if isinstance(v, Flt):
        # a float widened
        c = ex.st.pools.setdefault('fcache', {})
        key = ('f64', v.b.get_id())
        if key not in c:
            b = ex.freshbv('f64', 64)
            ex.addpc(ex.st, z3.fpBVToFP(b, z3.Float64()) == ex.fp(v))
            c[key] = (b, v)
        return c[key][0]
    if isinstance(v, Rat):
        ex.unsup('bits of a quotient')
    b = ex.freshbv('f64', 64)
    ex.addpc(ex.st, z3.fpBVToFP(b, z3.Float64()) == ex.fp(v))
    return b


def anynan(ex, b):
    """which NaN is stored is up to the implementation"""
    if isc(b):
        return b
    c = ex.st.pools.setdefault('fcache', {})
    key = ('nan', b.get_id())
    if key not in c:
        n = ex.freshbv('nan', b.size())
        ex.addpc(ex.st, ex.nanbits(n))
        c[key] = (z3.If(ex.nanbits(b), n, b), b)
    return c[key][0]


def tobits(ex, kind, v):
    """the stored form of v in a typed array, least significant byte first"""
    if kind == 'Float32Array':
        return bytes_le(f32bits(ex, ex.tonum(v)), 32)
    if kind == 'Float64Array':
        return bytes_le(f64bits(ex, ex.tonum(v)), 64)
    if kind.startswith('Big'):
        if not isinstance(v, Big):
            ex.throw('TypeError', 'Cannot convert value to a BigInt')
        return bytes_le(v.v & M64 if iscint(v.v) else z3.Extract(63, 0, v.v), 64)
    if kind == 'Uint8ClampedArray':
        v = ex.tonum(v)
        if not ex.isint(v):
            ex.unsup('clamped conversion')
        v = minmax(ex, minmax(ex, v, 0, False), 255, True)
    w = 8 * KINDS[kind]
    return bytes_le(intbits(ex, v, w), w)


def frombits(ex, kind, bs):
    t = concat_le(bs)
    w = 8 * len(bs)
    if kind == 'Float32Array':
        return num(struct.unpack('<f', struct.pack('<I', t))[0]) if isc(t) else Flt(t, 32)
    if kind == 'Float64Array':
        return num(struct.unpack('<d', struct.pack('<Q', t))[0]) if isc(t) else Flt(t, 64)
    sg = kind.startswith('Int') or kind == 'BigInt64Array'
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    if isc(t):
        t = t - (1 << w) if sg and t >> (w - 1) else t
        return Big(t) if kind.startswith('Big') else t
    if kind.startswith('Big'):
        return ex.mkbig(z3.SignExt(BW - w, t) if sg else z3.ZeroExt(BW - w, t), lo, hi)
    return ex.mk(z3.SignExt(64 - w, t) if sg else z3.ZeroExt(64 - w, t), lo, hi)


def minmax(ex, x, y, ismin):
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        if x != x or y != y:
            return math.nan
        return min(x, y) if ismin else max(x, y)
    if isinstance(y, float) and y == y and isinstance(x, SInt) or isinstance(x, float) and x == x and isinstance(y, SInt):
        f, s = (y, x) if isinstance(y, float) else (x, y)
        if math.isinf(f):
            return s if (f > 0) == ismin else f
    if ex.isint(x) and ex.isint(y):
        c = ex.compare('<', x, y)
        if not ismin:
            c = ex.compare('<', y, x)
        if isinstance(c, bool):
            return x if c else y
        (a, b), (p, q) = ex.rng(x), ex.rng(y)
        lo, hi = (min(a, p), min(b, q)) if ismin else (max(a, p), max(b, q))
        d = ex.decide(ex.st, c)
        if d is not None:
            return ex.clip(x if d else y, lo, hi)
        return ex.mk(z3.If(c, bv(ex.T(x)), bv(ex.T(y))), lo, hi)
    ex.unsup('minimum or maximum')


# ---------------------------------------------------------------- buffers and views
def newbuf(ex, n, mem=None):
    return Buf(ex.protos['ArrayBuffer'], M.ZERO if mem is None else mem, n)


def newview(ex, kind, n, mem=None):
    sz = KINDS[kind]
    nb = n * sz if isc(n) else M.simp(bv(n) * sz) if sz > 1 else n
    return View(ex.protos[kind], newbuf(ex, nb, mem), 0, n, kind)


def vaddr(v, i):
    sz = KINDS[v.kind]
    if sz > 1:
        i = i * sz if isc(i) else M.simp(bv(i) * sz)
    return add(v.off, i)


def vget(ex, v, i):
    sz = KINDS[v.kind]
    a = vaddr(v, i)
    if v.kind == 'Uint8Array':
        return sx8(ex, M.readp(v.buf.mem, a))
    return frombits(ex, v.kind, [M.readp(v.buf.mem, add(a, k)) for k in range(sz)])


def elem(ex, v, x):
    return tobits(ex, v.kind, x)


def vset(ex, v, i, bs):
    a = vaddr(v, i)
    for k, b in enumerate(bs):
        v.buf.mem = M.store(v.buf.mem, add(a, k), b)


def index(ex, v, msg, err='RangeError'):
    """ToIndex: a 64-bit term or int"""
    if v is UNDEF:
        return 0
    v = ex.toint(v)
    if iscint(v):
        if v < 0 or v > 1 << 53:
            ex.throw(err, msg)
        return v
    if v.lo < 0 and ex.test(ex.compare('<', v, 0)):
        ex.throw(err, msg)
    return v.t


def N_(ex, t):
    return ex.fromt(t)


def alloc(ex, n, kind, msg='Invalid typed array length'):
    if (isc(n) and n > MAXBUF) or not isc(n) and ex.ub(n) > MAXBUF and not ex.decide(ex.st, z3.ULE(n, MAXBUF)):
        if isc(n) or ex.test(z3.UGT(n, MAXBUF)):
            ex.throw('RangeError', msg)
    return newview(ex, kind, n)


def typed_ctor(kind):
    sz = KINDS[kind]

    def ctor(ex, args):
        v = A(args, 0)
        if isinstance(v, Buf):
            off = index(ex, A(args, 1), f'Start offset is outside the bounds of the buffer')
            if sz > 1 and (not isc(off) or off % sz):
                if not isc(off):
                    ex.unsup('symbolic offset of a wide typed array')
                ex.throw('RangeError', f'start offset of {kind} should be a multiple of {sz}')
            if A(args, 2) is UNDEF:
                if sz > 1:
                    if not isc(v.n):
                        ex.unsup('wide typed array over a symbolic buffer')
                    if v.n % sz:
                        ex.throw('RangeError', f'byte length of {kind} should be a multiple of {sz}')
                if ex.test(ex.compare('>', N_(ex, off), N_(ex, v.n))):
                    ex.throw('RangeError', f'Start offset is outside the bounds of the buffer')
                n = sub(v.n, off)
                n = n // sz if sz > 1 else n
            else:
                n = index(ex, A(args, 2), 'Invalid typed array length')
                nb = n * sz if isc(n) else M.simp(bv(n) * sz)
                if ex.test(ex.compare('>', ex.arith('+', N_(ex, off), N_(ex, nb)), N_(ex, v.n))):
                    ex.throw('RangeError', f'Invalid typed array length')
            return View(ex.protos[kind], v, off, n, kind)
        if isinstance(v, View) and v.kind:
            r = newview(ex, kind, v.n)
            setview(ex, r, v, 0)
            return r
        if isinstance(v, Obj):
            return fromlist(ex, kind, listlike(ex, v))
        if v is NULL or isstr(v) or isbool(v):
            v = ex.tonum(v)
        return alloc(ex, index(ex, v, 'Invalid typed array length'), kind)
    return ctor


def listlike(ex, v):
    if isinstance(v, (Arr, MapObj, View)) or isstr(v) or isinstance(ex.get(v, ex.sym_iterator), (Func, Native)):
        return ex.iterate(v)
    n = ex.toint(ex.get(v, 'length'))
    if not iscint(n):
        ex.unsup('length of an array-like object')
    return [ex.get(v, str(i)) for i in range(max(n, 0))]


def fromlist(ex, kind, items):
    r = newview(ex, kind, len(items))
    for i, x in enumerate(items):
        vset(ex, r, i, tobits(ex, kind, x))
    return r


def copyin(ex, dst, doff, src, soff, nb):
    """nb bytes between buffers (memmove)"""
    dst.mem = M.copy(dst.mem, doff, src.mem, soff, nb)


def same_layout(a, b):
    ints = {'Uint8Array', 'Int8Array', 'Uint8ClampedArray'}
    return a.kind == b.kind or a.kind in ints and b.kind in ints and a.kind != 'Uint8ClampedArray'


def setview(ex, dst, src, off):
    """off: element offset (term); the lengths have been checked"""
    if same_layout(dst, src):
        sz = KINDS[src.kind]
        nb = src.n * sz if isc(src.n) else M.simp(bv(src.n) * sz)
        copyin(ex, dst.buf, vaddr(dst, off), src.buf, src.off, nb)
        return
    items = ex.iterate(src)
    for i, x in enumerate(items):
        vset(ex, dst, add(off, i), tobits(ex, dst.kind, x))


def thisview(ex, this):
    if not isinstance(this, View) or this.kind is None:
        ex.throw('TypeError', 'this is not a typed array.')
    return this


def ta_set(ex, this, args):
    v = thisview(ex, this)
    off = ex.toint(A(args, 1)) if A(args, 1) is not UNDEF else 0
    if ex.test(ex.compare('<', off, 0)):
        ex.throw('RangeError', 'offset is out of bounds')
    s = A(args, 0)
    items = None
    if isinstance(s, View) and s.kind:
        n = N_(ex, s.n)
    else:
        if isnum(s) or isbool(s) or isinstance(s, Big):
            return UNDEF
        items = listlike(ex, s)
        n = len(items)
    if ex.test(ex.compare('>', ex.arith('+', off, n), N_(ex, v.n))):
        ex.throw('RangeError', 'offset is out of bounds')
    if items is None:
        setview(ex, v, s, ex.T(off))
    else:
        for i, x in enumerate(items):
            vset(ex, v, add(ex.T(off), i), tobits(ex, v.kind, x))
    return UNDEF


def rel(ex, v, n, default):
    """a relative index clamped to 0..n (numbers)"""
    if v is UNDEF:
        return default
    v = ex.tonum(v)
    if isinstance(v, float) and math.isinf(v):
        return n if v > 0 else 0
    v = ex.toint(v)
    if ex.test(ex.compare('<', v, 0)):
        return minmax(ex, ex.arith('+', n, v), 0, False)
    if not iscint(v):
        v = ex.clip(v, 0, v.hi)
    if ex.test(ex.compare('>', v, n)):
        return n
    hi = ex.rng(n)[1]
    return v if iscint(v) else ex.clip(v, 0, hi)


def span(ex, args, n):
    a = rel(ex, A(args, 0), n, 0)
    b = rel(ex, A(args, 1), n, n)
    if ex.test(ex.compare('<', b, a)):
        return a, 0
    c = ex.arith('-', b, a)
    if not iscint(c):
        c = ex.clip(c, 0, ex.rng(n)[1])
    return a, c


def ta_slice(ex, this, args):
    v = thisview(ex, this)
    a, c = span(ex, args, N_(ex, v.n))
    r = newview(ex, v.kind, ex.T(c))
    sz = KINDS[v.kind]
    nb = ex.T(c) * sz if iscint(c) else M.simp(bv(ex.T(c)) * sz)
    copyin(ex, r.buf, 0, v.buf, vaddr(v, ex.T(a)), nb)
    return r


def ta_subarray(ex, this, args):
    v = thisview(ex, this)
    a, c = span(ex, args, N_(ex, v.n))
    return View(v.proto, v.buf, vaddr(v, ex.T(a)), ex.T(c), v.kind)


def ta_fill(ex, this, args):
    v = thisview(ex, this)
    bs = tobits(ex, v.kind, A(args, 0))
    a, c = span(ex, args[1:], N_(ex, v.n))
    if KINDS[v.kind] == 1:
        v.buf.mem = M.fill(v.buf.mem, vaddr(v, ex.T(a)), ex.T(c), bs[0])
        return v
    if not iscint(a) or not iscint(c):
        ex.unsup('fill of a wide typed array')
    for i in range(c):
        vset(ex, v, a + i, bs)
    return v


def ta_at(ex, this, args):
    v = thisview(ex, this)
    i = ex.toint(A(args, 0))
    if ex.test(ex.compare('<', i, 0)):
        i = ex.arith('+', N_(ex, v.n), i)
    return ex.getidx(v, i)


def ta_copyWithin(ex, this, args):
    v = thisview(ex, this)
    n = N_(ex, v.n)
    to = rel(ex, A(args, 0), n, 0)
    a, c = span(ex, args[1:], n)
    c = minmax(ex, c, ex.arith('-', n, to), True)
    if KINDS[v.kind] > 1:
        ex.unsup('copyWithin of a wide typed array')
    copyin(ex, v.buf, vaddr(v, ex.T(to)), v.buf, vaddr(v, ex.T(a)), ex.T(c))
    return v


def viewprop(ex, v, k):
    if k == 'byteOffset':
        return N_(ex, v.off)
    if k == 'buffer':
        return v.buf
    if v.kind is None:
        return N_(ex, v.n) if k == 'byteLength' else None
    if k == 'length':
        return N_(ex, v.n)
    if k == 'byteLength':
        return ex.arith('*', N_(ex, v.n), KINDS[v.kind])
    if k == 'BYTES_PER_ELEMENT':
        return KINDS[v.kind]
    if isinstance(k, str) and k.isdigit():
        return ex.getidx(v, int(k))
    return None


def buf_slice(ex, this, args):
    if not isinstance(this, Buf):
        ex.throw('TypeError', 'not an ArrayBuffer')
    a, c = span(ex, args, N_(ex, this.n))
    r = newbuf(ex, ex.T(c))
    copyin(ex, r, 0, this, ex.T(a), ex.T(c))
    return r


def dv_ctor(ex, args):
    b = A(args, 0)
    if not isinstance(b, Buf):
        ex.throw('TypeError', 'First argument to DataView constructor must be an ArrayBuffer')
    off = index(ex, A(args, 1), 'Start offset is outside the bounds of the buffer')
    if ex.test(ex.compare('>', N_(ex, off), N_(ex, b.n))):
        ex.throw('RangeError', 'Start offset is outside the bounds of the buffer')
    if A(args, 2) is UNDEF:
        n = sub(b.n, off)
    else:
        n = index(ex, A(args, 2), 'Invalid DataView length')
        if ex.test(ex.compare('>', ex.arith('+', N_(ex, off), N_(ex, n)), N_(ex, b.n))):
            ex.throw('RangeError', 'Invalid DataView length')
    return View(ex.protos['DataView'], b, off, n, None)


def dv_access(kind, store):
    sz = KINDS[kind]

    def f(ex, this, args):
        if not isinstance(this, View) or this.kind is not None:
            ex.throw('TypeError', 'not a DataView')
        off = index(ex, A(args, 0), 'Offset is outside the bounds of the DataView')
        bs = tobits(ex, kind, A(args, 1)) if store else None
        little = ex.test(A(args, 2 if store else 1))
        if ex.test(ex.compare('>', ex.arith('+', N_(ex, off), sz), N_(ex, this.n))):
            ex.throw('RangeError', 'Offset is outside the bounds of the DataView')
        a = add(this.off, off)
        ks = range(sz) if little else range(sz - 1, -1, -1)
        if store:
            for k, b in zip(ks, bs):
                this.buf.mem = M.store(this.buf.mem, add(a, k), b)
            return UNDEF
        return frombits(ex, kind, [M.readp(this.buf.mem, add(a, k)) for k in ks])
    return f


# ---------------------------------------------------------------- texts
def utf8(s):
    return s.encode('utf-16-le', 'surrogatepass').decode('utf-16-le', 'replace').encode()


def strbytes(ex, s):
    if isinstance(s, str):
        b = utf8(s)
        return M.lit(b), 0, len(b)
    if isinstance(s, SStr):
        return s.mem, s.off, s.n
    c = ex.st.pools.setdefault('ostr', {})
    if id(s) not in c:
        n = ex.idx('opq.len', 0, 1 << 30)
        ex.addpc(ex.st, z3.And(0 <= n, n <= 1 << 30))
        ex.fresh += 1
        c[id(s)] = (M.arr(f'opq!{ex.fresh}'), 0, n, s)
        facts(ex.st).append(('utf8', c[id(s)][0], 0, n, True))
    return c[id(s)][:3]


def strlen(ex, s):
    if isinstance(s, str):
        return len(s.encode('utf-16-le', 'surrogatepass')) // 2
    if isinstance(s, OStr):
        s = mkstr(ex, *strbytes(ex, s))
    if s.u16 is None:
        if isc(s.n) and s.n == 0:
            s.u16 = 0
        else:
            hi = ex.ub(s.n)
            u = ex.idx('u16', 0, hi)
            ex.addpc(ex.st, z3.And(z3.ULE(u, bv(s.n)), z3.ULE(bv(s.n), u * 3)))
            s.u16 = SInt(u, 0, hi)
    return s.u16


def mkstr(ex, mem, off, n):
    if isc(n) and isc(off) and mem.k == 'lit':
        return mem.a[off:off + n].decode('utf-8')
    if isc(n) and n <= 64:
        bs = [M.readp(mem, add(off, i)) for i in range(n)]
        if all(isc(b) for b in bs):
            return bytes(bs).decode('utf-8')
    return SStr(mem, off, n)


def te_encode(ex, this, args):
    s = A(args, 0)
    m, off, n = strbytes(ex, '' if s is UNDEF else ex.tostr(s))
    r = newview(ex, 'Uint8Array', n)
    r.buf.mem = M.copy(M.ZERO, 0, m, off, n)
    return r


def te_into(ex, this, args):
    s = ex.tostr(A(args, 0))
    v = thisview(ex, A(args, 1))
    m, off, n = strbytes(ex, s)
    o = ex.newobj()
    if ex.test(ex.compare('<=', N_(ex, n), N_(ex, v.n))):
        copyin(ex, v.buf, v.off, Buf(None, m, n), off, n)
        o.props['read'], o.props['written'] = strlen(ex, s), N_(ex, n)
        return o
    # as many whole characters as there is room for
    w = ex.idx('written', 0, ex.ub(v.n))
    ex.addpc(ex.st, z3.And(z3.ULE(w, bv(v.n)), z3.UGE(w + 3, bv(v.n))))
    copyin(ex, v.buf, v.off, Buf(None, m, n), off, w)
    u = strlen(ex, s)
    r = ex.idx('read', 0, ex.rng(u)[1])
    ex.addpc(ex.st, z3.And(z3.ULE(r, bv(ex.T(u))), z3.ULE(r, w), z3.ULE(w, r * 3)))
    o.props['read'], o.props['written'] = SInt(r, 0, ex.rng(u)[1]), SInt(w, 0, ex.ub(v.n))
    return o


def td_ctor(ex, args):
    o = Obj(ex.protos['TextDecoder'])
    lab = A(args, 0)
    if lab is not UNDEF:
        if not isinstance(lab, str) or lab.strip().lower() not in ('utf-8', 'utf8', 'unicode-1-1-utf-8'):
            ex.unsup('encoding of a TextDecoder')
    opt = A(args, 1)
    for k in ('fatal', 'ignoreBOM'):
        v = ex.get(opt, k) if isinstance(opt, Obj) else UNDEF
        o.props[k] = ex.test(v)
    o.props['encoding'] = 'utf-8'
    return o


def td_decode(ex, this, args):
    v = A(args, 0)
    opt = A(args, 1)
    if isinstance(opt, Obj) and ex.test(ex.get(opt, 'stream')):
        ex.unsup('streaming TextDecoder')
    if v is UNDEF:
        return ''
    if isinstance(v, Buf):
        mem, off, n = v.mem, 0, v.n
    elif isinstance(v, View):
        nb = v.n if v.kind is None or KINDS[v.kind] == 1 else ex.unsup('text of a wide typed array')
        mem, off, n = v.buf.mem, v.off, nb
    else:
        ex.throw('TypeError', 'The "list" argument must be an instance of SharedArrayBuffer, ArrayBuffer or ArrayBufferView.')
    st = ex.st
    if not isc(n) and ex.decide(st, n == 0) is True:
        n = 0
    if isc(n) and n == 0:
        return ''
    if not ex.test(utf8_pred(ex, st, mem, off, n)):
        if this.props['fatal']:
            ex.throw('TypeError', 'The encoded data was not valid for encoding utf-8')
        return OStr()
    if not this.props['ignoreBOM']:
        c = ex.compare('>=', N_(ex, n), 3)
        for i, b in enumerate((0xef, 0xbb, 0xbf)):
            if c is False:
                break
            x = M.readp(mem, add(off, i))
            c = ex.conj(c, (x == b) if isc(x) else x == b)
        if ex.test(c):
            off, n = add(off, 3), sub(n, 3)
    return mkstr(ex, mem, off, n)


def conc_str(ex, s):
    s = ex.tostr(s)
    if not isinstance(s, str):
        ex.unsup('string method on symbolic text')
    return s


def u16(s):
    return s.encode('utf-16-le', 'surrogatepass')


def un16(b):
    return b.decode('utf-16-le', 'surrogatepass')


def primproto(ex, v):
    if isstr(v):
        return ex.protos['String']
    if isnum(v):
        return ex.protos['Number']
    if isbool(v):
        return ex.protos['Boolean']
    if isinstance(v, Big):
        return ex.protos['BigInt']
    if isinstance(v, Symbol):
        return ex.protos['Symbol']
    ex.unsup(f'properties of {type(v).__name__}')


# ---------------------------------------------------------------- maps and sets
def mapkey(ex, v):
    if isinstance(v, bool) or isinstance(v, str):
        return (type(v).__name__, v)
    if isinstance(v, (int, float)):
        return ('n', 'nan' if v != v else v + 0)
    if isinstance(v, Big) and iscint(v.v):
        return ('b', v.v)
    if v is UNDEF or v is NULL:
        return ('u', repr(v))
    if isinstance(v, (Obj, Symbol)):
        return ('o', id(v))
    ex.unsup('symbolic key of a Map or Set')


# ---------------------------------------------------------------- set-up
def setup(ex):
    P = ex.protos = {}
    G = ex.globals = {}
    ex.mods, ex.exports = {}, {}
    from .ex import Env
    ex.genv = Env(None)
    op = P['Object'] = Obj(None)
    fp = P['Function'] = Obj(op)
    ex.sym_iterator = Symbol('Symbol.iterator')
    for n in ('Array', 'Error', 'String', 'Number', 'Boolean', 'BigInt', 'Symbol', 'Map', 'Set', 'ArrayBuffer', 'DataView', 'TextEncoder', 'TextDecoder', 'TypedArray',
              'Iterator'):
        P[n] = Obj(op)
    for k in KINDS:
        P[k] = Obj(P['TypedArray'])

    def nat(name, fn, ctor=None):
        f = Native(fp, name, fn, ctor)
        f.props['name'] = name
        return f

    def cls(name, ctor, fn=None, statics=(), methods=(), proto=None):
        p = proto or P[name]
        f = nat(name, fn or (lambda ex, this, args: ex.throw('TypeError', f"Class constructor {name} cannot be invoked without 'new'")), ctor)
        f.props['prototype'] = p
        p.props['constructor'] = f
        for k, g in dict(statics).items():
            f.props[k] = nat(k, g) if callable(g) and not isinstance(g, Obj) else g
        for k, g in dict(methods).items():
            p.props[k] = nat(k if isinstance(k, str) else 'iterator', g) if callable(g) and not isinstance(g, Obj) else g
        G[name] = f
        return f

    def iterof(f):
        """methods that return an iterator: an array stands for it"""
        return lambda ex, this, args: ex.newarr(f(ex, this))

    # Object
    def own(ex, o):
        if isinstance(o, Arr):
            return [(str(i), x) for i, x in enumerate(o.a)] + [(k, v) for k, v in o.props.items() if isinstance(k, str)]
        if isinstance(o, View):
            ex.unsup('own properties of a typed array')
        return [(k, v) for k, v in o.props.items() if isinstance(k, str)] if isinstance(o, Obj) else []

    def setproto(ex, this, args):
        if isinstance(args[0], Obj):
            args[0].proto = args[1] if isinstance(args[1], Obj) else None
        return args[0]

    def defprop(ex, this, args):
        o, k, d = args[0], ex.key(args[1]), args[2]
        if ex.has(d, 'get') or ex.has(d, 'set'):
            g, s = ex.get(d, 'get'), ex.get(d, 'set')
            o.props[k] = Acc(g if g is not UNDEF else None, s if s is not UNDEF else None)
        else:
            o.props[k] = ex.get(d, 'value')
        return o

    def assign(ex, this, args):
        for s in args[1:]:
            for k, _ in own(ex, s):
                ex.set(args[0], k, ex.get(s, k))
        return args[0]

    def freeze(ex, this, args):
        if isinstance(args[0], Obj):
            args[0].frozen = True
        return args[0]

    def create(ex, this, args):
        return Obj(args[0] if isinstance(args[0], Obj) else None)

    def hasown(ex, o, k):
        k = ex.key(k)
        return isinstance(o, Obj) and (k in o.props or isinstance(o, Arr) and isinstance(k, str) and k.isdigit() and int(k) < len(o.a))

    def isproto(ex, this, args):
        x = A(args, 0)
        while isinstance(x, Obj):
            x = x.proto
            if x is this:
                return True
        return False

    def fromentries(ex, this, args):
        o = ex.newobj()
        for e in ex.iterate(args[0]):
            k, v = ex.iterate(e)[:2]
            o.props[ex.key(k)] = v
        return o
    cls('Object', lambda ex, a: A(a, 0) if isinstance(A(a, 0), Obj) else ex.newobj(), lambda ex, t, a: A(a, 0) if isinstance(A(a, 0), Obj) else ex.newobj(), {
        'setPrototypeOf': setproto, 'getPrototypeOf': lambda ex, t, a: (a[0].proto or NULL) if isinstance(a[0], Obj) else primproto(ex, a[0]),
        'create': create, 'keys': lambda ex, t, a: ex.newarr([k for k, _ in own(ex, a[0])]),
        'values': lambda ex, t, a: ex.newarr([ex.get(a[0], k) for k, _ in own(ex, a[0])]),
        'entries': lambda ex, t, a: ex.newarr([ex.newarr([k, ex.get(a[0], k)]) for k, _ in own(ex, a[0])]),
        'getOwnPropertyNames': lambda ex, t, a: ex.newarr([k for k, _ in own(ex, a[0])]),
        'assign': assign, 'freeze': freeze, 'seal': lambda ex, t, a: a[0], 'preventExtensions': lambda ex, t, a: a[0],
        'isFrozen': lambda ex, t, a: not isinstance(a[0], Obj) or bool(a[0].frozen),
        'defineProperty': defprop, 'is': lambda ex, t, a: ex.sameval(A(a, 0), A(a, 1)), 'hasOwn': lambda ex, t, a: hasown(ex, a[0], a[1]),
        'fromEntries': fromentries}, {
        'hasOwnProperty': lambda ex, t, a: hasown(ex, t, a[0]), 'isPrototypeOf': isproto,
        'toString': lambda ex, t, a: '[object Object]', 'valueOf': lambda ex, t, a: t})

    # Function
    def bind(ex, this, args):
        f = Func(fp, {'params': [], 'type': 'bound'}, None, 'normal')
        f.bound = (this, A(args, 0), args[1:])
        f.props['name'] = 'bound ' + ex.fname(this)
        return f
    cls('Function', None, lambda ex, t, a: ex.unsup('Function()'), {}, {
        'call': lambda ex, t, a: ex.call(t, A(a, 0), a[1:]),
        'apply': lambda ex, t, a: ex.call(t, A(a, 0), [] if A(a, 1) is UNDEF or A(a, 1) is NULL else listlike(ex, a[1])),
        'bind': bind, 'toString': lambda ex, t, a: OStr()})
    del G['Function']

    # errors
    def errctor(name):
        def f(ex, args):
            o = Obj(P[name])
            m = A(args, 0)
            if m is not UNDEF:
                o.props['message'] = ex.tostr(m)
            opt = A(args, 1)
            if isinstance(opt, Obj) and ex.has(opt, 'cause'):
                o.props['cause'] = ex.get(opt, 'cause')
            o.props['stack'] = ''
            return o
        return f

    def errstr(ex, this, args):
        n, m = ex.get(this, 'name'), ex.get(this, 'message')
        if m == '' if isinstance(m, str) else False:
            return n
        return ex.concat(ex.concat(ex.tostr(n), ': '), ex.tostr(m))
    e = cls('Error', errctor('Error'), lambda ex, t, a: errctor('Error')(ex, a), {'captureStackTrace': lambda ex, t, a: UNDEF}, {'toString': errstr})
    P['Error'].props.update(name='Error', message='')
    for n in ERRORS:
        P[n] = Obj(P['Error'])
        f = cls(n, errctor(n), lambda ex, t, a, n=n: errctor(n)(ex, a))
        f.proto = e
        P[n].props.update(name=n, message='')

    # numbers
    def isint(ex, v):
        if iscint(v) or isinstance(v, SInt):
            return True
        if isinstance(v, float):
            return math.isfinite(v) and v == math.floor(v)
        if isinstance(v, Rat):
            return ex.numeq(ex.arith('%', v.n, v.d), 0)
        if isinstance(v, Flt):
            x = ex.fp(v)
            return z3.And(z3.Not(z3.fpIsInf(x)), z3.Not(z3.fpIsNaN(x)), z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), x), x))
        return False

    def isnan(ex, v):
        if isinstance(v, Flt):
            return z3.fpIsNaN(ex.fp(v))
        return isinstance(v, float) and v != v

    def isfinite(ex, v):
        if isinstance(v, Flt):
            x = ex.fp(v)
            return z3.And(z3.Not(z3.fpIsInf(x)), z3.Not(z3.fpIsNaN(x)))
        return isnum(v) and not (isinstance(v, float) and not math.isfinite(v))

    def safe(ex, v):
        if isinstance(v, Flt):
            ex.unsup('isSafeInteger of a symbolic double')
        return ex.conj(isint(ex, v), ex.conj(ex.compare('<=', v, (1 << 53) - 1), ex.compare('>=', v, 1 - (1 << 53)))) if isnum(v) and isfinite(ex, v) else False

    def tonumber(ex, v):
        if v is None:
            return 0
        return ex.big2num(v) if isinstance(v, Big) else ex.tonum(v)
    cls('Number', None, lambda ex, t, a: tonumber(ex, a[0] if a else None), {
        'isInteger': lambda ex, t, a: isint(ex, A(a, 0)) if isnum(A(a, 0)) else False, 'isNaN': lambda ex, t, a: isnan(ex, A(a, 0)),
        'isFinite': lambda ex, t, a: isfinite(ex, A(a, 0)), 'isSafeInteger': lambda ex, t, a: safe(ex, A(a, 0)),
        'MAX_SAFE_INTEGER': (1 << 53) - 1, 'MIN_SAFE_INTEGER': 1 - (1 << 53), 'MAX_VALUE': 1.7976931348623157e308, 'MIN_VALUE': 5e-324,
        'EPSILON': 2.0 ** -52, 'POSITIVE_INFINITY': math.inf, 'NEGATIVE_INFINITY': -math.inf, 'NaN': math.nan},
        {'toString': lambda ex, t, a: ex.tostr(t) if A(a, 0) is UNDEF or A(a, 0) == 10 else OStr(), 'valueOf': lambda ex, t, a: t})
    G['isNaN'] = nat('isNaN', lambda ex, t, a: isnan(ex, ex.tonum(A(a, 0))))
    G['isFinite'] = nat('isFinite', lambda ex, t, a: isfinite(ex, ex.tonum(A(a, 0))))
    def parse(ex, t, a):
        v = A(a, 0)
        if isnum(v) and ex.isint(v) and A(a, 1) in (UNDEF, 10):
            return v
        s = conc_str(ex, v).strip()
        r = A(a, 1)
        if r is UNDEF or r == 0:
            r = 16 if s[:2].lower() == '0x' else 10
        if s[:2].lower() == '0x' and r == 16:
            s = s[2:]
        n = 0
        sg = 1
        if s[:1] in '+-' and s:
            sg, s = (-1 if s[0] == '-' else 1), s[1:]
        while n < len(s) and s[n].isalnum() and s[n].isascii() and int(s[n], 36) < r:
            n += 1
        return sg * int(s[:n], r) if n else math.nan
    G['parseInt'] = nat('parseInt', parse)
    G['Number'].props['parseInt'] = G['parseInt']
    con = G['console'] = Obj(op)
    for k in ('log', 'warn', 'error', 'debug', 'info', 'trace', 'assert'):
        con.props[k] = nat(k, lambda ex, t, a: UNDEF)
    G['NaN'], G['Infinity'] = math.nan, math.inf
    cls('Boolean', None, lambda ex, t, a: ex.truth(A(a, 0)), {}, {'valueOf': lambda ex, t, a: t, 'toString': lambda ex, t, a: ex.tostr(t)})

    def tobigint(ex, v):
        if isinstance(v, Obj):
            v = ex.toprim(v, 'number')
        if isinstance(v, Big):
            return v
        if isbool(v):
            v = ex.tonum(v)
        if isinstance(v, str):
            try:
                return Big(int(v.strip() or '0', 0))
            except ValueError:
                ex.throw('SyntaxError', f'Cannot convert {v} to a BigInt')
        if isinstance(v, float):
            if not math.isfinite(v) or v != math.floor(v):
                ex.throw('RangeError', 'The number cannot be converted to a BigInt because it is not an integer')
            return Big(int(v))
        if isinstance(v, Rat):
            if not ex.test(isint(ex, v)):
                ex.throw('RangeError', 'The number cannot be converted to a BigInt because it is not an integer')
            v = ex.floor(v)
        if ex.isint(v):
            return ex.num2big(v)
        if isnum(v) or isstr(v):
            ex.unsup('BigInt of a symbolic double or text')
        ex.throw('TypeError', 'Cannot convert value to a BigInt')

    def asN(signed):
        def f(ex, this, args):
            w, v = ex.toint(args[0]), tobigint(ex, A(args, 1))
            if not iscint(w) or w >= BW:
                ex.unsup('width of asIntN')
            if w == 0:
                return Big(0)
            m = (1 << w) - 1
            if iscint(v.v):
                x = v.v & m
                return Big(x - (1 << w) if signed and x >> (w - 1) else x)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, m)
            if lo <= v.lo and v.hi <= hi:
                return v
            e = z3.Extract(w - 1, 0, v.v)
            return ex.mkbig(z3.SignExt(BW - w, e) if signed else z3.ZeroExt(BW - w, e), lo, hi)
        return f
    cls('BigInt', None, lambda ex, t, a: tobigint(ex, A(a, 0)), {'asUintN': asN(False), 'asIntN': asN(True)},
        {'toString': lambda ex, t, a: ex.tostr(t), 'valueOf': lambda ex, t, a: t})

    def sym(ex, this, args):
        return Symbol(args[0] if args else '')
    cls('Symbol', None, sym, {'iterator': None}, {'toString': lambda ex, t, a: OStr()})
    G['Symbol'].props['iterator'] = ex.sym_iterator
    for k in ('asyncIterator', 'hasInstance', 'toStringTag', 'toPrimitive', 'species'):
        G['Symbol'].props[k] = Symbol('Symbol.' + k)

    # Math
    def floor(ex, t, a):
        v = ex.tonum(A(a, 0))
        if ex.isint(v):
            return v
        if isinstance(v, Rat):
            return ex.floor(v)
        if isinstance(v, Flt):
            return ex.ffp(z3.fpRoundToIntegral(z3.RTN(), ex.fp(v)))
        return v if not math.isfinite(v) else num(float(math.floor(v)))

    def ceil(ex, t, a):
        v = ex.tonum(A(a, 0))
        if ex.isint(v):
            return v
        if isinstance(v, Rat):
            return ex.floor(Rat(ex.arith('+', v.n, v.d - 1), v.d))
        if isinstance(v, Flt):
            return ex.ffp(z3.fpRoundToIntegral(z3.RTP(), ex.fp(v)))
        return v if not math.isfinite(v) else num(float(math.ceil(v)))

    def trunc(ex, t, a):
        v = ex.tonum(A(a, 0))
        if ex.isint(v):
            return v
        if isinstance(v, Rat):
            return ex.trunc(v)
        if isinstance(v, Flt):
            return ex.ffp(z3.fpRoundToIntegral(z3.RTZ(), ex.fp(v)))
        return v if not math.isfinite(v) else num(float(math.trunc(v)))

    def mm(ismin):
        def f(ex, t, a):
            if not a:
                return math.inf if ismin else -math.inf
            r = ex.tonum(a[0])
            for x in a[1:]:
                r = minmax(ex, r, ex.tonum(x), ismin)
            return r
        return f

    def mabs(ex, t, a):
        v = ex.tonum(A(a, 0))
        if isinstance(v, (int, float)):
            return abs(v)
        if isinstance(v, SInt):
            if v.lo >= 0:
                return v
            return ex.mk(z3.If(v.t < 0, -v.t, v.t), 0, max(-v.lo, v.hi))
        if isinstance(v, Flt):
            return Flt(z3.simplify(bv(v.b, v.w) & ((1 << (v.w - 1)) - 1)), v.w)
        ex.unsup('Math.abs')

    def clz(ex, t, a):
        v = ex.toint(A(a, 0), 'u')
        if iscint(v):
            return 32 - v.bit_length()
        r = bv(32)
        for i in range(32):
            r = z3.If(z3.Extract(i, i, v.t) == 1, bv(31 - i), r)
        lo, hi = 32 - v.hi.bit_length(), 32 - max(v.lo, 0).bit_length()
        return ex.mk(r, lo, hi)

    def imul(ex, t, a):
        x, y = ex.toint(A(a, 0), 's'), ex.toint(A(a, 1), 's')
        r = z3.Extract(31, 0, bv(ex.T(x))) * z3.Extract(31, 0, bv(ex.T(y)))
        return ex.mk(z3.SignExt(32, r), -(1 << 31), (1 << 31) - 1)

    def fround(ex, t, a):
        v = ex.tonum(A(a, 0))
        b = f32bits(ex, v)
        return num(struct.unpack('<f', struct.pack('<I', b))[0]) if isc(b) else Flt(b, 32)

    def conc(name, f):
        def g(ex, t, a):
            v = [ex.tonum(x) for x in a]
            if not all(isinstance(x, (int, float)) for x in v):
                ex.unsup('Math.' + name)
            try:
                return num(float(f(*v)))
            except (ValueError, OverflowError):
                return math.nan
        return g
    m = G['Math'] = Obj(op)
    for k, f in {'floor': floor, 'ceil': ceil, 'trunc': trunc, 'min': mm(True), 'max': mm(False), 'abs': mabs, 'clz32': clz, 'imul': imul, 'fround': fround,
                 'pow': lambda ex, t, a: ex.arith('**', ex.tonum(a[0]), ex.tonum(a[1])), 'log2': conc('log2', math.log2), 'log': conc('log', math.log),
                 'sqrt': conc('sqrt', math.sqrt), 'round': conc('round', lambda x: math.floor(x + 0.5)),
                 'sign': conc('sign', lambda x: (x > 0) - (x < 0)), 'log10': conc('log10', math.log10), 'exp': conc('exp', math.exp)}.items():
        m.props[k] = nat(k, f)
    m.props.update(PI=math.pi, E=math.e, LN2=math.log(2), SQRT2=math.sqrt(2))

    # strings
    def S(f):
        return lambda ex, t, a: f(ex, conc_str(ex, t), a)

    def irel(ex, v, n, d):
        r = rel(ex, v, n, d)
        return r if iscint(r) else ex.unsup('symbolic position in text')

    def charcode(ex, s, a):
        b = u16(s)
        i = ex.toint(A(a, 0))
        if not iscint(i):
            ex.unsup('symbolic position in text')
        return int.from_bytes(b[2 * i:2 * i + 2], 'little') if 0 <= i < len(b) // 2 else math.nan

    def sslice(ex, s, a):
        b = u16(s)
        n = len(b) // 2
        i, j = irel(ex, A(a, 0), n, 0), irel(ex, A(a, 1), n, n)
        return un16(b[2 * i:2 * max(i, j)])

    def substring(ex, s, a):
        b = u16(s)
        n = len(b) // 2
        c = lambda v, d: d if v is UNDEF else min(max(ex.toint(v), 0), n)
        i, j = sorted((c(A(a, 0), 0), c(A(a, 1), n)))
        return un16(b[2 * i:2 * j])

    def sat(ex, s, a):
        b = u16(s)
        n = len(b) // 2
        i = ex.toint(A(a, 0))
        i = i + n if i < 0 else i
        return un16(b[2 * i:2 * i + 2]) if 0 <= i < n else UNDEF
    cs = conc_str
    cls('String', None, lambda ex, t, a: ex.tostr(a[0]) if a else '', {
        'fromCharCode': lambda ex, t, a: un16(b''.join(int(ex.toint(x)).to_bytes(2, 'little') for x in a))}, {
        'charCodeAt': S(charcode), 'charAt': S(lambda ex, s, a: sslice(ex, s, [A(a, 0) if a else 0, (ex.toint(A(a, 0)) if a else 0) + 1])),
        'slice': S(sslice), 'substring': S(substring), 'at': S(sat),
        'indexOf': S(lambda ex, s, a: s.find(cs(ex, A(a, 0)))), 'includes': S(lambda ex, s, a: cs(ex, A(a, 0)) in s),
        'startsWith': S(lambda ex, s, a: s.startswith(cs(ex, A(a, 0)))), 'endsWith': S(lambda ex, s, a: s.endswith(cs(ex, A(a, 0)))),
        'split': S(lambda ex, s, a: ex.newarr(list(s) if A(a, 0) == '' else s.split(cs(ex, A(a, 0))))),
        'repeat': S(lambda ex, s, a: s * ex.toint(A(a, 0))), 'trim': S(lambda ex, s, a: s.strip()),
        'toUpperCase': S(lambda ex, s, a: s.upper()), 'toLowerCase': S(lambda ex, s, a: s.lower()),
        'padStart': S(lambda ex, s, a: s.rjust(ex.toint(A(a, 0)), ' ' if A(a, 1) is UNDEF else cs(ex, A(a, 1)))),
        'isWellFormed': lambda ex, t, a: True if not isinstance(t, str) else utf8(t).decode() == t,
        'toWellFormed': lambda ex, t, a: t if not isinstance(t, str) else utf8(t).decode(),
        'concat': lambda ex, t, a: ex.concat(ex.tostr(t), ex.tostr(A(a, 0))), 'toString': lambda ex, t, a: t, 'valueOf': lambda ex, t, a: t})

    # arrays
    def L(ex, t):
        if isinstance(t, Arr):
            return t.a
        return ex.iterate(t)

    def push(ex, t, a):
        t.a.extend(a)
        return len(t.a)

    def splice(ex, t, a):
        n = len(t.a)
        i = irel(ex, A(a, 0), n, 0)
        c = min(max(ex.toint(a[1]), 0), n - i) if len(a) > 1 else n - i
        out = t.a[i:i + c]
        t.a[i:i + c] = a[2:]
        return ex.newarr(out)

    def aslice(ex, t, a):
        n = len(L(ex, t))
        i, j = irel(ex, A(a, 0), n, 0), irel(ex, A(a, 1), n, n)
        return ex.newarr(L(ex, t)[i:max(i, j)])

    def call3(ex, f, t, i, o):
        return ex.call(f, UNDEF, [t, i, o])

    def foreach(ex, t, a):
        for i, x in enumerate(L(ex, t)):
            call3(ex, a[0], x, i, t)
        return UNDEF

    def reduce(ex, t, a):
        xs = list(enumerate(L(ex, t)))
        if len(a) > 1:
            r = a[1]
        else:
            if not xs:
                ex.throw('TypeError', 'Reduce of empty array with no initial value')
            r = xs.pop(0)[1]
        for i, x in xs:
            r = ex.call(a[0], UNDEF, [r, x, i, t])
        return r

    def reduceright(ex, t, a):
        xs = list(enumerate(L(ex, t)))
        if len(a) > 1:
            r = a[1]
        else:
            if not xs:
                ex.throw('TypeError', 'Reduce of empty array with no initial value')
            r = xs.pop()[1]
        for i, x in reversed(xs):
            r = ex.call(a[0], UNDEF, [r, x, i, t])
        return r

    def findlast(ex, t, a, pos=False):
        for i, x in reversed(list(enumerate(L(ex, t)))):
            if ex.test(call3(ex, a[0], x, i, t)):
                return i if pos else x
        return -1 if pos else UNDEF

    def lastindexof(ex, t, a):
        for i, x in reversed(list(enumerate(L(ex, t)))):
            if ex.test(ex.equal(x, A(a, 0))):
                return i
        return -1

    def flat(ex, t, a, depth=None):
        d = depth if depth is not None else 1 if A(a, 0) is UNDEF else ex.toint(a[0])
        out = []

        def go(xs, d):
            for x in xs:
                if isinstance(x, Arr) and d > 0:
                    go(x.a, d - 1)
                else:
                    out.append(x)
        go(t.a, d)
        return ex.newarr(out)

    def flatmap(ex, t, a):
        return flat(ex, amap(ex, t, a), [], 1)

    def sort(ex, t, a):
        xs = list(L(ex, t))
        if A(a, 0) is UNDEF:
            ex.unsup('sort without a comparison')
        for i in range(1, len(xs)):
            j = i
            while j > 0 and ex.test(ex.compare('>', ex.tonum(ex.call(a[0], UNDEF, [xs[j - 1], xs[j]])), 0)):
                xs[j - 1], xs[j] = xs[j], xs[j - 1]
                j -= 1
        t.a[:] = xs
        return t

    def awith(ex, t, a):
        xs = list(t.a)
        i = irel(ex, A(a, 0), len(xs), 0)
        if not 0 <= i < len(xs):
            ex.throw('RangeError', 'Invalid index')
        xs[i] = a[1]
        return ex.newarr(xs)

    def find(ex, t, a, pos=False):
        for i, x in enumerate(L(ex, t)):
            if ex.test(call3(ex, a[0], x, i, t)):
                return i if pos else x
        return -1 if pos else UNDEF

    def indexof(ex, t, a):
        for i, x in enumerate(L(ex, t)):
            if ex.test(ex.equal(x, A(a, 0))):
                return i
        return -1

    def join(ex, t, a):
        sep = ',' if A(a, 0) is UNDEF else a[0]
        r = ''
        for i, x in enumerate(L(ex, t)):
            r = ex.concat(r, sep if i else '')
            r = ex.concat(r, '' if x is UNDEF or x is NULL else ex.tostr(x))
        return r

    def some(ex, t, a):
        return any(ex.test(call3(ex, a[0], x, i, t)) for i, x in enumerate(L(ex, t)))

    def every(ex, t, a):
        return all(ex.test(call3(ex, a[0], x, i, t)) for i, x in enumerate(L(ex, t)))

    def amap(ex, t, a):
        return ex.newarr([call3(ex, a[0], x, i, t) for i, x in enumerate(L(ex, t))])

    def afrom(ex, t, a):
        xs = listlike(ex, a[0])
        if A(a, 1) is not UNDEF:
            xs = [ex.call(a[1], UNDEF, [x, i]) for i, x in enumerate(xs)]
        return ex.newarr(xs)

    def actor(ex, a):
        if len(a) == 1 and isnum(a[0]):
            n = a[0]
            if not iscint(n):
                ex.unsup('length of a new Array')
            if n < 0:
                ex.throw('RangeError', 'Invalid array length')
            if n > 100000:
                ex.unsup('huge array')
            return ex.newarr([UNDEF] * n)
        return ex.newarr(a)

    def concat(ex, t, a):
        out = list(t.a)
        for x in a:
            out += x.a if isinstance(x, Arr) else [x]
        return ex.newarr(out)

    def afill(ex, t, a):
        n = len(t.a)
        for i in range(irel(ex, A(a, 1), n, 0), irel(ex, A(a, 2), n, n)):
            t.a[i] = A(a, 0)
        return t

    def rev(ex, t, a):
        t.a.reverse()
        return t

    def aat(ex, t, a):
        i = ex.toint(A(a, 0))
        return ex.getidx(t, i + len(t.a) if iscint(i) and i < 0 else i)
    arrm = {'push': push, 'pop': lambda ex, t, a: t.a.pop() if t.a else UNDEF, 'shift': lambda ex, t, a: t.a.pop(0) if t.a else UNDEF,
            'unshift': lambda ex, t, a: (t.a.__setitem__(slice(0, 0), a), len(t.a))[1], 'splice': splice, 'slice': aslice, 'forEach': foreach, 'map': amap,
            'filter': lambda ex, t, a: ex.newarr([x for i, x in enumerate(list(t.a)) if ex.test(call3(ex, a[0], x, i, t))]),
            'reduce': reduce, 'find': find, 'findIndex': lambda ex, t, a: find(ex, t, a, True), 'indexOf': indexof,
            'includes': lambda ex, t, a: indexof(ex, t, a) >= 0, 'join': join, 'some': some, 'every': every, 'concat': concat, 'fill': afill, 'reverse': rev, 'at': aat,
            'keys': iterof(lambda ex, t: list(range(len(L(ex, t))))), 'values': iterof(lambda ex, t: list(L(ex, t))),
            'entries': iterof(lambda ex, t: [ex.newarr([i, x]) for i, x in enumerate(L(ex, t))]),
            'toString': lambda ex, t, a: join(ex, t, []), 'reduceRight': reduceright, 'findLast': findlast,
            'findLastIndex': lambda ex, t, a: findlast(ex, t, a, True), 'lastIndexOf': lastindexof, 'flat': flat, 'flatMap': flatmap, 'sort': sort,
            'with': awith, 'toReversed': lambda ex, t, a: ex.newarr(list(t.a)[::-1]), 'toSorted': lambda ex, t, a: sort(ex, ex.newarr(list(t.a)), a),
            'toSpliced': lambda ex, t, a: (lambda c: (splice(ex, c, a), c)[1])(ex.newarr(list(t.a)))}
    cls('Array', actor, lambda ex, t, a: actor(ex, a), {'isArray': lambda ex, t, a: isinstance(A(a, 0), Arr), 'from': afrom, 'of': lambda ex, t, a: ex.newarr(a)}, arrm)

    # Map and Set
    def mctor(isset):
        def f(ex, a):
            m = MapObj(P['Set' if isset else 'Map'], isset)
            if A(a, 0) is not UNDEF and A(a, 0) is not NULL:
                for x in ex.iterate(a[0]):
                    if isset:
                        m.m.setdefault(mapkey(ex, x), (x, x))
                    else:
                        k, v = ex.iterate(x)[:2]
                        mset(ex, m, [k, v])
            return m
        return f

    def mset(ex, t, a):
        k = mapkey(ex, A(a, 0))
        t.m[k] = (t.m[k][0] if k in t.m else a[0], A(a, 1) if not t.isset else a[0])
        return t

    def mforeach(ex, t, a):
        for k, v in list(t.m.values()):
            ex.call(a[0], UNDEF, [v, k, t])
        return UNDEF
    common = {'has': lambda ex, t, a: mapkey(ex, A(a, 0)) in t.m, 'delete': lambda ex, t, a: t.m.pop(mapkey(ex, A(a, 0)), None) is not None,
              'clear': lambda ex, t, a: (t.m.clear(), UNDEF)[1], 'forEach': mforeach, 'keys': iterof(lambda ex, t: [k for k, _ in t.m.values()]),
              'values': iterof(lambda ex, t: [v for _, v in t.m.values()]), 'entries': iterof(lambda ex, t: [ex.newarr([k, v]) for k, v in t.m.values()])}
    cls('Map', mctor(False), None, {}, dict(common, get=lambda ex, t, a: t.m.get(mapkey(ex, A(a, 0)), (UNDEF, UNDEF))[1], set=mset))
    cls('Set', mctor(True), None, {}, dict(common, add=mset))

    # buffers
    cls('ArrayBuffer', lambda ex, a: newbuf(ex, index(ex, A(a, 0), 'Array buffer allocation failed')), None,
        {'isView': lambda ex, t, a: isinstance(A(a, 0), View)}, {'slice': buf_slice})
    ta = {'set': ta_set, 'slice': ta_slice, 'subarray': ta_subarray, 'fill': ta_fill, 'at': ta_at, 'copyWithin': ta_copyWithin}
    for k in ('reduceRight', 'findLast', 'findLastIndex', 'lastIndexOf', 'forEach', 'reduce', 'find', 'findIndex', 'indexOf', 'includes', 'join', 'some', 'every', 'keys', 'values', 'entries', 'toString'):
        ta[k] = arrm[k]
    ta['map'] = lambda ex, t, a: fromlist(ex, t.kind, [call3(ex, a[0], x, i, t) for i, x in enumerate(ex.iterate(t))])
    ta['filter'] = lambda ex, t, a: fromlist(ex, t.kind, [x for i, x in enumerate(ex.iterate(t)) if ex.test(call3(ex, a[0], x, i, t))])
    ta['toReversed'] = lambda ex, t, a: fromlist(ex, t.kind, list(ex.iterate(t))[::-1])

    def tarev(ex, t, a):
        xs = list(ex.iterate(t))
        for i, x in enumerate(reversed(xs)):
            ex.setidx(t, i, x)
        return t
    ta['reverse'] = tarev
    for k, f in ta.items():
        P['TypedArray'].props[k] = nat(k, f)
    for k, sz in KINDS.items():
        def tfrom(ex, t, a, k=k):
            xs = listlike(ex, a[0])
            if A(a, 1) is not UNDEF:
                xs = [ex.call(a[1], UNDEF, [x, i]) for i, x in enumerate(xs)]
            return fromlist(ex, k, xs)
        f = cls(k, typed_ctor(k), None, {'from': tfrom, 'of': lambda ex, t, a, k=k: fromlist(ex, k, a), 'BYTES_PER_ELEMENT': sz})
        P[k].props['BYTES_PER_ELEMENT'] = sz
    cls('DataView', dv_ctor, None, {}, {
        **{'get' + n.replace('Array', ''): dv_access(n, False) for n in KINDS if n != 'Uint8ClampedArray'},
        **{'set' + n.replace('Array', ''): dv_access(n, True) for n in KINDS if n != 'Uint8ClampedArray'}})
    cls('TextEncoder', lambda ex, a: Obj(P['TextEncoder']), None, {}, {'encode': te_encode, 'encodeInto': te_into})
    cls('TextDecoder', td_ctor, None, {}, {'decode': td_decode})


# ---------------------------------------------------------------- the harness interface
def symmod(ex):
    out = {}
    st = ex.st

    def reg(name):
        def d(f):
            out[name] = Native(ex.protos['Function'], name, lambda ex, t, a: f(*a))
            return f
        return d

    def fresh(n):
        k = st.names.get(n, 0)
        st.names[n] = k + 1
        return f'{n}#{k}'

    def scalar(w, wrap):
        def f(name):
            n = fresh(name)
            v = z3.BitVec(n, w)
            st.inputs.append((n, 'int', v, w))
            return wrap(v)
        return f
    for n, w in (('u8', 8), ('u16', 16), ('u32', 32)):
        reg(n)(scalar(w, lambda v, w=w: SInt(z3.ZeroExt(64 - w, v), 0, (1 << w) - 1)))
    reg('i32')(scalar(32, lambda v: SInt(z3.SignExt(32, v), -(1 << 31), (1 << 31) - 1)))
    reg('u64')(scalar(64, lambda v: Big(z3.ZeroExt(BW - 64, v), 0, M64)))
    reg('i64')(scalar(64, lambda v: Big(z3.SignExt(BW - 64, v), -(1 << 63), (1 << 63) - 1)))
    reg('f32')(scalar(32, lambda v: Flt(v, 32)))
    reg('f64')(scalar(64, lambda v: Flt(v, 64)))

    @reg('bool')
    def _(name):
        n = fresh(name)
        v = z3.BitVec(n, 8)
        st.inputs.append((n, 'int', v, 8))
        ex.addpc(st, z3.ULE(v, 1))
        return v == 1

    @reg('size')
    def _(name, lo, hi):
        n = fresh(name)
        v = z3.BitVec(f'{n}!{lo}!{hi}', 64)
        ex.lia.index(v, lo, hi)
        st.inputs.append((n, 'int', v, 'size'))
        ex.addpc(st, z3.And(z3.ULE(bv(lo), v), z3.ULE(v, bv(hi))))
        return SInt(v, lo, hi)

    @reg('choose')
    def _(name, k):
        r = ex.choose(st, k)
        st.inputs.append((fresh(name), 'const', r, 64))
        return r

    def mk(name, lo, hi):
        n = fresh(name)
        if lo == hi:
            ln = lo
        else:
            ln = z3.BitVec(f'{n}.len!{lo}!{hi}', 64)
            ex.lia.index(ln, lo, hi)
            ex.addpc(st, z3.And(z3.ULE(bv(lo), ln), z3.ULE(ln, bv(hi))))
        a = M.arr(n)
        st.inputs.append((n, 'bytes', (a.a, ln, ln), 0))
        return a, ln

    @reg('bytes')
    def _(name, lo, hi):
        a, ln = mk(name, lo, hi)
        return newview(ex, 'Uint8Array', ln, a)

    @reg('str')
    def _(name, lo, hi):
        a, ln = mk(name, lo, hi)
        ex.addpc(st, z3.Implies(z3.ULE(bv(ln), U8MAX), utf8_exact(a, 0, ln)))
        facts(st).append(('utf8', a, 0, ln, True))
        st.pools['texts'] = list(st.pools.get('texts') or ()) + [a.a]
        return SStr(a, 0, ln)

    @reg('assume')
    def _(c):
        ex.assume(st, ex.cond(c))
        return UNDEF

    @reg('check')
    def _(c, msg):
        c = ex.cond(c)
        ex.assert_(st, ex.norm(c), msg)
        return UNDEF

    @reg('reach')
    def _(l):
        st.labels.add(l)
        return UNDEF

    @reg('same')
    def _(a, b):
        return ex.norm(ex.sameval(a, b))

    def eqb(ma, oa, na, mb, ob, nb, msg):
        ex.assert_(st, ex.norm(M.eq_(na, nb)), msg + ' (length)')
        n = na if isc(na) else nb
        c = content_eq(ex, st, ma, oa, mb, ob, n)
        ex.assert_(st, c if isinstance(c, bool) else ex.norm(c), msg + ' (content)', keep=isc(n) and n <= 40)

    @reg('checkBytes')
    def _(a, b, msg):
        for v in (a, b):
            if not isinstance(v, View) or v.kind != 'Uint8Array':
                ex.assert_(st, False, msg + ' (not a Uint8Array)')
        eqb(a.buf.mem, a.off, a.n, b.buf.mem, b.off, b.n, msg)
        return UNDEF

    @reg('checkStr')
    def _(a, b, msg):
        if not isstr(a) or not isstr(b):
            ex.assert_(st, False, msg + ' (not a string)')
        if isinstance(a, OStr) or isinstance(b, OStr):
            if a is not b:
                # replacement characters or text of unknown content: the real code tells
                e = ex.idx('unlike', 0, 1)
                ex.assert_(st, e == 0, msg + ' (content)', keep=False)
            return UNDEF
        eqb(*strbytes(ex, a), *strbytes(ex, b), msg)
        return UNDEF

    @reg('isUtf8')
    def _(v):
        return utf8_pred(ex, st, v.buf.mem, v.off, v.n)

    @reg('isStr')
    def _(v):
        return isstr(v)

    @reg('utf8')
    def _(s):
        return te_encode(ex, UNDEF, [s])

    @reg('clone')
    def _(v):
        return ta_slice(ex, v, [])

    @reg('bits32')
    def _(v):
        b = f32bits(ex, v)
        return b if isc(b) else ex.mk(z3.ZeroExt(32, b), 0, (1 << 32) - 1)

    @reg('bits64')
    def _(v):
        b = f64bits(ex, v)
        return Big(b) if isc(b) else ex.mkbig(z3.ZeroExt(BW - 64, b), 0, M64)
    return out
