"""The harness API, LLVM intrinsics, the allocator and the few library routines
that are given their meaning here instead of being executed."""
import re
import z3
from gosym import mem as M
from gosym.mem import add, sub, isc, bv
from gosym.ex import PathEnd, Unsupported, GoPanic
from .ex import Ptr, NULL, UNDEF, Obj, CALLED, MASK, isfn


class Intr:
    def __init__(self):
        self.t = {}
        self.res = []
        self.cache = {}

    def find(self, name, ex):
        if name in self.cache:
            return self.cache[name]
        h = self.t.get(name)
        if h is None:
            for r, f in self.res:
                if r.search(name):
                    h = f
                    break
        self.cache[name] = h
        return h

    def reg(self, *names):
        def d(f):
            for n in names:
                self.t[n] = f
            return f
        return d

    def rx(self, *pats):
        def d(f):
            for p in pats:
                self.res.append((re.compile(p), f))
            return f
        return d


I = Intr()


def cname(ex, st, p):
    o = st.heap[p.obj]
    b = bytearray()
    i = p.off
    while True:
        x = ex.getbyte(st, p.obj, i)
        if x == 0:
            return b.decode()
        b.append(x)
        i += 1


def fresh_name(st, n):
    k = st.names.get(n, 0)
    st.names[n] = k + 1
    return f'{n}#{k}'


def scalar(w):
    def f(ex, st, fr, fn, args, ins):
        n = fresh_name(st, cname(ex, st, args[0]))
        v = z3.BitVec(n, w)
        st.inputs.append((n, 'int', v, w))
        return v
    return f


for w in (8, 16, 32, 64):
    I.t[f'sym_u{w}'] = scalar(w)


@I.reg('sym_size')
def _(ex, st, fr, fn, args, ins):
    n = fresh_name(st, cname(ex, st, args[0]))
    lo, hi = args[1], args[2]
    v = ex.lia.named(n, lo, hi)
    st.inputs.append((n, 'int', v, 'size'))
    ex.addpc(st, z3.And(z3.ULE(bv(lo), v), z3.ULE(v, bv(hi))))
    return v


@I.reg('sym_choose')
def _(ex, st, fr, fn, args, ins):
    k = ex.choose(st, args[1])
    n = fresh_name(st, cname(ex, st, args[0]))
    st.inputs.append((n, 'const', k, 64))
    return k


def mkbytes(ex, st, n, lo, hi, maxcap, kind, extra=0):
    if isc(lo) and isc(hi) and lo == hi:
        ln = lo
    else:
        ln = ex.lia.named(n + '.len', lo if isc(lo) else 0, ex.ub(hi))
        ex.addpc(st, z3.And(z3.ULE(bv(lo), ln), z3.ULE(ln, bv(hi))))
    cap = ln
    if maxcap is not None:
        cap = ex.lia.named(n + '.cap', 0, ex.ub(maxcap))
        ex.addpc(st, z3.And(z3.ULE(bv(ln), cap), z3.ULE(cap, bv(maxcap))))
    a = M.arr(n)
    oid = ex.new(st, Obj(a, add(cap, extra), 1, kind))
    st.inputs.append((n, 'bytes', (a.a, ln, cap), 0))
    return oid, ln, cap


@I.reg('sym_bytes')
def _(ex, st, fr, fn, args, ins):
    n = fresh_name(st, cname(ex, st, args[0]))
    o, ln, cap = mkbytes(ex, st, n, args[1], args[2], None, 'caller')
    ex.store(st, args[3], ln, ('i', 64))
    return Ptr(o, 0)


@I.reg('sym_vec')
def _(ex, st, fr, fn, args, ins):
    n = fresh_name(st, cname(ex, st, args[0]))
    o, ln, cap = mkbytes(ex, st, n, args[1], args[2], args[3], 'vec')
    ex.store(st, args[4], ln, ('i', 64))
    ex.store(st, args[5], cap, ('i', 64))
    return Ptr(o, 0)


@I.reg('sym_str')
def _(ex, st, fr, fn, args, ins):
    n = fresh_name(st, cname(ex, st, args[0]))
    o, ln, cap = mkbytes(ex, st, n, args[1], args[2], None, 'const')
    ex.store(st, args[3], ln, ('i', 64))
    mem = st.heap[o].mem
    # short texts are constrained exactly, longer ones by the fact that they are valid
    ex.addpc(st, z3.Implies(z3.ULE(bv(ln), U8MAX), utf8_exact(mem, 0, ln)))
    facts(st).append(('utf8', mem, 0, ln, True))
    st.pools['texts'] = list(st.pools.get('texts') or ()) + [mem.a]
    return Ptr(o, 0)


@I.reg('sym_cstr')
def _(ex, st, fr, fn, args, ins):
    n = fresh_name(st, cname(ex, st, args[0]))
    o, ln, cap = mkbytes(ex, st, n, args[1], args[2], None, 'caller', 1)
    ex.store(st, args[3], ln, ('i', 64))
    mem = st.heap[o].mem
    facts(st).append(('nz', mem.a, 0, ln))
    st.heap[o] = st.heap[o].but(mem=M.store(mem, ln, 0))
    for i in range(4):
        ex.addpc(st, z3.Implies(z3.ULT(z3.BitVecVal(i, 64), bv(ln)), mem.a(z3.BitVecVal(i, 64)) != 0))
    return Ptr(o, 0)


@I.reg('sym_block')
def _(ex, st, fr, fn, args, ins):
    o = ex.new(st, Obj(ex.uninit('block'), args[0], 1, 'caller'))
    return Ptr(o, 0)


@I.reg('sym_snapshot')
def _(ex, st, fr, fn, args, ins):
    p, n = args
    if isc(n) and n == 0:
        return Ptr(ex.new(st, Obj(M.ZERO, 0, 1, 'const')), 0)
    mem, off = ex.bytesat(st, p)
    o = ex.new(st, Obj(M.copy(M.ZERO, 0, mem, off, n), n, 1, 'const'))
    return Ptr(o, 0)


@I.reg('sym_assume')
def _(ex, st, fr, fn, args, ins):
    ex.assume(st, ex.cond(args[0]))


@I.reg('sym_assert')
def _(ex, st, fr, fn, args, ins):
    ex.assert_(st, ex.cond(args[0]), cname(ex, st, args[1]))


@I.reg('sym_reach')
def _(ex, st, fr, fn, args, ins):
    st.labels.add(cname(ex, st, args[0]))


@I.reg('sym_alloc_limit')
def _(ex, st, fr, fn, args, ins):
    st.pools['limit'] = (args[0], cname(ex, st, args[1]))


@I.reg('sym_live')
def _(ex, st, fr, fn, args, ins):
    return sum(1 for o in st.heap.values() if o.kind == 'heap' and o.live)


@I.reg('sym_heap_size')
def _(ex, st, fr, fn, args, ins):
    p = args[0]
    if not isinstance(p.obj, int):
        return 0
    o = st.heap[p.obj]
    return o.size if o.live else 0


def content_eq(ex, st, ma, oa, mb, ob, n, force=False):
    """a formula for: n bytes are equal (for symbolic n at a fresh index)"""
    if isc(n) and n <= 40:
        c = True
        for i in range(n):
            x, y = M.readp(ma, add(oa, i)), M.readp(mb, add(ob, i))
            if isc(x) and isc(y):
                if x != y:
                    return False
                continue
            c = ex.conj(c, bv(x, 8) == bv(y, 8))
        return c
    if ma is mb:
        d = sub(oa, ob)
        if isc(d) and d == 0:
            return True
    i = ex.idx('sk', 0, ex.ub(n))
    x, y = M.read(ma, add(oa, i)), M.read(mb, add(ob, i))
    return z3.Implies(z3.ULT(i, bv(n)), bv(x, 8) == bv(y, 8))


@I.reg('sym_assert_eq')
def _(ex, st, fr, fn, args, ins):
    a, b, n, msg = args
    msg = cname(ex, st, msg)
    if isc(n) and n == 0:
        return
    if a.obj is None or b.obj is None:
        if isc(n):
            raise Unsupported('comparison of an invalid block')
        ex.assume(st, n == 0)
        return
    ma, oa = ex.bytesat(st, a)
    mb, ob = ex.bytesat(st, b)
    ex.assert_(st, content_eq(ex, st, ma, oa, mb, ob, n), msg, keep=isc(n) and n <= 40)


# ---------------------------------------------------------------- facts about byte ranges
def facts(st):
    f = st.pools.get('facts')
    f = list(f) if f else []
    st.pools['facts'] = f
    return f


U8MAX = 4


def utf8_exact(mem, off, n):
    """exact validity of a text of at most U8MAX bytes"""
    bs = [bv(M.read(mem, add(off, i)), 8) for i in range(U8MAX)]
    inr = lambda b, lo, hi: z3.And(z3.UGE(b, lo), z3.ULE(b, hi))
    cont = lambda b: inr(b, 0x80, 0xbf)
    ok = {}
    V = z3.BoolVal

    def valid(i, k):
        """bytes i..k are valid"""
        if i == k:
            return V(True)
        if (i, k) in ok:
            return ok[(i, k)]
        b = bs[i:]
        alts = [z3.And(z3.ULE(b[0], 0x7f), valid(i + 1, k))]
        if k - i >= 2:
            alts.append(z3.And(inr(b[0], 0xc2, 0xdf), cont(b[1]), valid(i + 2, k)))
        if k - i >= 3:
            alts.append(z3.And(z3.Or(z3.And(b[0] == 0xe0, inr(b[1], 0xa0, 0xbf)), z3.And(inr(b[0], 0xe1, 0xec), cont(b[1])),
                                     z3.And(b[0] == 0xed, inr(b[1], 0x80, 0x9f)), z3.And(inr(b[0], 0xee, 0xef), cont(b[1]))),
                               cont(b[2]), valid(i + 3, k)))
        if k - i >= 4:
            alts.append(z3.And(z3.Or(z3.And(b[0] == 0xf0, inr(b[1], 0x90, 0xbf)), z3.And(inr(b[0], 0xf1, 0xf3), cont(b[1])),
                                     z3.And(b[0] == 0xf4, inr(b[1], 0x80, 0x8f))), cont(b[2]), cont(b[3]), valid(i + 4, k)))
        r = ok[(i, k)] = z3.Or(*alts)
        return r
    if isc(n):
        return valid(0, n)
    e = V(False)
    for k in range(U8MAX, -1, -1):
        e = z3.If(n == k, valid(0, k), e)
    return e


def utf8_valid(ex, st, p, n):
    if isc(n) and n == 0:
        return True
    if isinstance(p, Ptr) and p.obj is None:
        if isc(n):
            raise Unsupported('text at an invalid address')
        ex.assume(st, n == 0)
        return True
    mem, off = ex.bytesat(st, p)
    return utf8_pred(ex, st, mem, off, n)


def utf8_pred(ex, st, mem, off, n):
    """is the text valid?  Decided from earlier facts when the content is the same;
    otherwise a new unknown, exact for short texts"""
    if isc(n) and n == 0:
        return True
    if mem.k == 'lit' and isc(n) and isc(off):
        try:
            bytes(mem.a[off:off + n]).decode('utf-8')
            return True
        except UnicodeDecodeError:
            return False
    like = []
    for f in st.pools.get('facts') or ():
        if f[0] != 'utf8':
            continue
        _, m2, o2, n2, v = f
        el = M.eq_(n, n2)
        d = ex.decide(st, el)
        if d is False:
            continue
        same = content_eq(ex, st, mem, off, m2, o2, n)
        if d is None:
            if same is not False:
                like.append((el if same is True else z3.And(el, same), v))
            continue
        if same is True or same is not False and ex.decide(st, same) is True:
            return v
        if same is not False:
            like.append((same, v))
    if isc(n) and n <= U8MAX:
        return ex.norm(utf8_exact(mem, off, n))
    ex.fresh += 1
    b = z3.Bool(f'utf8!{ex.fresh}')
    # equal texts are both valid or both not (the fresh index in `same` is one where
    # they differ, if there is one)
    for same, v in like:
        ex.addpc(st, z3.Implies(same, b == v if not isinstance(v, bool) else (b if v else z3.Not(b))))
    ex.addpc(st, z3.Implies(z3.ULE(bv(n), U8MAX), b == utf8_exact(mem, off, n)))
    facts(st).append(('utf8', mem, off, n, b))
    return b


@I.reg('sym_utf8')
def _(ex, st, fr, fn, args, ins):
    return utf8_valid(ex, st, args[0], args[1])


@I.rx(r'4core3str8converts9from_utf8$')
def _(ex, st, fr, fn, args, ins):
    ret, p, n = args
    ex.access(st, p, n, 'text read')
    v = utf8_valid(ex, st, p, n)
    if ex.branch(st, v) if not isinstance(v, bool) else v:
        ex.store(st, ret, 0, ('i', 64))
        ex.store(st, ex.padd(ret, 8), p, ('ptr',))
        ex.store(st, ex.padd(ret, 16), n, ('i', 64))
    else:
        ex.store(st, ret, 1, ('i', 64))
        ex.fresh += 1
        up = z3.BitVec(f'valid_up_to!{ex.fresh}', 64)
        ex.lia.index(up, 0, ex.ub(n))
        ex.addpc(st, z3.ULT(up, bv(n)))
        ex.store(st, ex.padd(ret, 8), up, ('i', 64))
        ex.fresh += 1
        ex.store(st, ex.padd(ret, 16), z3.BitVec(f'error_len!{ex.fresh}', 64), ('i', 64))


def apps(t, f, out, seen):
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_app(t):
        if t.decl().eq(f):
            out.append(t)
        for c in t.children():
            apps(c, f, out, seen)


def use_fact(ex, st, f, t, k):
    """what one non-zero fact says about the bytes term t reads, and about byte k"""
    if f[0] == 'nz':
        _, fun, c, n = f
        out = []
        apps(t, fun, out, set())
        for a in out:
            i = sub(a.arg(0), c)
            ex.addpc(st, z3.Implies(z3.ULT(bv(i), bv(n)), a != 0))
    elif f[0] == 'nzraw' and k is not None:
        _, mem, off, n = f
        x = M.read(mem, add(off, k))
        if isc(x):
            if x == 0:
                ex.addpc(st, z3.UGE(bv(k), bv(n)))
        else:
            ex.addpc(st, z3.Implies(z3.ULT(bv(k), bv(n)), x != 0))


def instantiate(ex, st, t, k=None):
    if isc(t):
        return
    for f in st.pools.get('facts') or ():
        use_fact(ex, st, f, t, k)


def nonzero_fact(ex, st, mem, off, n):
    """records that bytes off..off+n are not zero"""
    ex.fresh += 1
    j = z3.BitVec(f'nzj!{ex.fresh}', 64)
    ex.lia.index(j, 0, ex.ub(n))
    keep, km = list(st.pc), st.model
    st.pc.append(z3.ULT(j, bv(n)))
    st.model = None
    t = M.readp(mem, add(off, j))
    st.pc, st.model = keep, km
    if isc(t):
        return
    f = ('nzraw', mem, off, n)
    if z3.is_app(t) and t.num_args() == 1 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        c = sub(t.arg(0), j)
        if isc(c) or not has(c, j):
            f = ('nz', t.decl(), c, n)
    for i in range(16):
        # short loops look at the bytes one by one
        use_fact(ex, st, ('nzraw', mem, off, n), None, i)
    # zeros found earlier
    for g in list(st.pools.get('facts') or ()):
        if g[0] == 'zk':
            use_fact(ex, st, f, g[2], g[1])
    facts(st).append(f)


def has(t, j):
    if t.eq(j):
        return True
    return any(has(c, j) for c in t.children())


def find_zero(ex, st, mem, off, n):
    """index of a zero byte below n, or None when there is none: both are explored"""
    if isc(n) and n <= 16:
        for i in range(n):
            b = M.readp(mem, add(off, i))
            instantiate(ex, st, b)
            z = (b == 0) if isc(b) else ex.branch(st, b == 0)
            if z:
                return i
        return None
    ex.fresh += 1
    k = z3.BitVec(f'zero!{ex.fresh}', 64)
    ex.lia.index(k, 0, ex.ub(n))
    b = M.read(mem, add(off, k))
    instantiate(ex, st, b, k)
    flag = z3.Bool(f'haszero!{ex.fresh}')
    cond = z3.And(z3.ULT(k, bv(n)), bv(b, 8) == 0)
    if ex.decide(st, cond) is False:
        found = False
    else:
        found = ex.branch(st, flag)
    if found:
        ex.assume(st, cond)
        if not isc(b):
            facts(st).append(('zk', k, b))
        # the first one, as far as short prefixes go
        for i in range(4):
            x = M.readp(mem, add(off, i))
            instantiate(ex, st, x)
            ex.addpc(st, z3.Implies(z3.ULT(z3.BitVecVal(i, 64), k), bv(x, 8) != 0))
        return k
    nonzero_fact(ex, st, mem, off, n)
    for i in range(4):
        x = M.readp(mem, add(off, i))
        if not isc(x):
            ex.addpc(st, z3.Implies(z3.ULT(z3.BitVecVal(i, 64), bv(n)), x != 0))
    return None


@I.reg('sym_has_zero')
def _(ex, st, fr, fn, args, ins):
    p, n = args
    if isc(n) and n == 0:
        return False
    mem, off = ex.bytesat(st, p)
    key = ('hz', id(mem), M.key(off), M.key(n))
    if key in st.pools:
        return st.pools[key]
    r = find_zero(ex, st, mem, off, n) is not None
    return r


@I.reg('strlen')
def _(ex, st, fr, fn, args, ins):
    p = args[0]
    o = ex.access(st, p, 1, 'string read')
    mem, off = ex.bytesat(st, p)
    last = sub(sub(o.size, off), 1)
    b = M.readp(mem, add(off, last))
    r = find_zero(ex, st, mem, off, last) if not (isc(last) and last == 0) else None
    if r is not None:
        return r
    z = (b == 0) if isc(b) else ex.branch(st, b == 0)
    if not z:
        ex.bad(st, 'string read out of bounds (no terminating zero)')
        raise PathEnd('violated', 'strlen')
    return last


@I.rx(r'4core5slice6memchr', r'memchr14memchr_aligned', r'^memchr$')
def _(ex, st, fr, fn, args, ins):
    if fn == 'memchr':
        p, c, n = args
    else:
        c, p, n = args[0], args[1], args[2]
    if not (isc(c) and c & 255 == 0):
        raise Unsupported('memchr of another byte')
    if isc(n) and n == 0:
        k = None
    else:
        if ex.access(st, p, n, 'memory search') is None:
            k = None
        else:
            mem, off = ex.bytesat(st, p)
            k = find_zero(ex, st, mem, off, n)
    if fn == 'memchr':
        return NULL if k is None else ex.padd(p, k)
    return (0, UNDEF) if k is None else (1, k)


@I.reg('memcmp', 'bcmp')
def _(ex, st, fr, fn, args, ins):
    a, b, n = args
    if isc(n) and n == 0:
        return 0
    if ex.access(st, a, n, 'memcmp') is None or ex.access(st, b, n, 'memcmp') is None:
        return 0
    ma, oa = ex.bytesat(st, a)
    mb, ob = ex.bytesat(st, b)
    same = content_eq(ex, st, ma, oa, mb, ob, n)
    if same is True or same is False:
        return 0 if same else 1
    if isc(n) and n <= 40:
        return 0 if ex.branch(st, same) else 1
    if ex.decide(st, same) is True:
        return 0
    if not isc(n) and ex.decide(st, z3.ULE(n, 16)) is True:
        # short: exactly, byte by byte
        c = [z3.Implies(z3.ULT(z3.BitVecVal(i, 64), n), bv(M.read(ma, add(oa, i)), 8) == bv(M.read(mb, add(ob, i)), 8)) for i in range(16)]
        return 0 if ex.branch(st, z3.And(c)) else 1
    ex.fresh += 1
    if ex.branch(st, z3.Bool(f'equal!{ex.fresh}')):
        for i in range(8):
            x, y = M.read(ma, add(oa, i)), M.read(mb, add(ob, i))
            ex.addpc(st, z3.Implies(z3.ULT(z3.BitVecVal(i, 64), bv(n)), bv(x, 8) == bv(y, 8)))
        return 0
    ex.assume(st, z3.Not(same))
    return 1


# ---------------------------------------------------------------- allocator
def checked_size(ex, st, n):
    lim = st.pools.get('limit')
    if lim is not None:
        l, msg = lim
        ex.assert_(st, ex.norm(z3.ULE(bv(n), bv(l))) if not (isc(n) and isc(l)) else n <= l, msg)


@I.rx(r'_R.*_7___rustc\d+___rust_alloc$', r'^__rust_alloc$')
def _(ex, st, fr, fn, args, ins):
    checked_size(ex, st, args[0])
    return ex.alloc(st, args[0], args[1], False)


@I.rx(r'_7___rustc\d+___rust_alloc_zeroed$', r'^__rust_alloc_zeroed$')
def _(ex, st, fr, fn, args, ins):
    checked_size(ex, st, args[0])
    return ex.alloc(st, args[0], args[1], True)


@I.rx(r'_7___rustc\d+___rust_dealloc$', r'^__rust_dealloc$')
def _(ex, st, fr, fn, args, ins):
    ex.dealloc(st, args[0], args[1], args[2])


@I.rx(r'_7___rustc\d+___rust_realloc$', r'^__rust_realloc$')
def _(ex, st, fr, fn, args, ins):
    p, old, align, n = args
    o = ex.check_free(st, p, old, align, 'realloc')
    checked_size(ex, st, n)
    o = ex.flush(st, p.obj)
    q = ex.alloc(st, n, align, False)
    no = st.heap[q.obj]
    small = n if isc(n) and isc(old) and n < old else old
    if not (isc(n) and isc(old)):
        less = ex.branch(st, z3.ULT(bv(n), bv(old)))
        small = n if less else old
    if o.cells:
        if not isc(small):
            raise Unsupported('realloc of an object with pointers')
        st.heap[q.obj] = no.but(mem=M.copy(no.mem, 0, o.mem, 0, small), cells={k: e for k, e in o.cells.items() if k + e[0] <= small})
    else:
        st.heap[q.obj] = no.but(mem=M.copy(no.mem, 0, o.mem, 0, small))
    st.heap[p.obj] = o.but(live=False)
    return q


# ---------------------------------------------------------------- LLVM
def nop(ex, st, fr, fn, args, ins):
    return None


I.rx(r'^llvm\.(lifetime|experimental\.noalias|dbg|donothing|prefetch|sideeffect|invariant)', r'rust_no_alloc_shim_is_unstable')(nop)


@I.rx(r'^llvm\.assume')
def _(ex, st, fr, fn, args, ins):
    c = args[0]
    if c is UNDEF or c is True:
        return
    # an assumption the code makes true is no restriction; a false one is undefined behaviour
    if c is False:
        ex.bad(st, 'compiler assumption violated (undefined behaviour)')
        raise PathEnd('violated', 'assume')
    c = ex.cond(c)
    if ex.decide(st, c) is True:
        return
    r, m = ex.xcheck(st.pc + [z3.Not(c)])
    if r == 'sat':
        ex.bad(st, 'compiler assumption violated (undefined behaviour)', [z3.Not(c)])
    ex.assume(st, c)


@I.rx(r'^llvm\.expect')
def _(ex, st, fr, fn, args, ins):
    return args[0]


@I.rx(r'^llvm\.(memcpy|memmove)', r'^mem(cpy|move)$')
def _(ex, st, fr, fn, args, ins):
    ex.memmove(st, args[0], args[1], args[2])
    return args[0]


@I.rx(r'^llvm\.memset', r'^memset$')
def _(ex, st, fr, fn, args, ins):
    b = args[1]
    ex.memset(st, args[0], b if isc(b) and b < 256 else M.simp(z3.Extract(7, 0, b)) if not isc(b) and b.size() > 8 else b, args[2])
    return args[0]


def iw(fn):
    m = re.search(r'\.i(\d+)$', fn)
    return int(m.group(1))


@I.rx(r'^llvm\.(umin|umax|smin|smax)\.i\d+$')
def _(ex, st, fr, fn, args, ins):
    a, b = args
    w = iw(fn)
    op = fn[5:9]
    le = ex.icmp(st, 'ule' if op[0] == 'u' else 'sle', ('i', w), a, b)
    if op.endswith('max'):
        a, b = b, a
    return ex.select(st, le, a, b, ('i', 64) if w == 64 else ('i', w))


@I.rx(r'^llvm\.(usub|uadd)\.sat\.i\d+$')
def _(ex, st, fr, fn, args, ins):
    a, b = args
    w = iw(fn)
    t = ('i', w)
    if 'usub' in fn:
        return ex.select(st, ex.icmp(st, 'uge', t, a, b), ex.binop(st, 'sub', t, a, b, ()), 0, t)
    s = ex.binop(st, 'add', t, a, b, ())
    return ex.select(st, ex.icmp(st, 'uge', t, s, a), s, MASK[w], t)


@I.rx(r'^llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i\d+$')
def _(ex, st, fr, fn, args, ins):
    a, b = args
    w = iw(fn)
    t = ('i', w)
    m = re.match(r'llvm\.(u|s)(add|sub|mul)', fn)
    sg, op = m.group(1) == 's', m.group(2)
    r = ex.binop(st, op, t, a, b, ())
    if isc(a) and isc(b):
        s = (lambda x: x - (1 << w) if x >> (w - 1) else x) if sg else (lambda x: x)
        v = {'add': s(a) + s(b), 'sub': s(a) - s(b), 'mul': s(a) * s(b)}[op]
        ov = not (-(1 << (w - 1)) <= v < (1 << (w - 1))) if sg else not 0 <= v < (1 << w)
        return (r, ov)
    if not sg and op == 'add':
        ov = ex.icmp(st, 'ult', t, r, a)
    elif not sg and op == 'sub':
        ov = ex.icmp(st, 'ult', t, a, b)
    elif not sg and op == 'mul' and (isc(a) or isc(b)):
        k, x = (a, b) if isc(a) else (b, a)
        ov = False if k <= 1 else ex.icmp(st, 'ugt', t, x, MASK[w] // k)
    else:
        A, B = bv(a, w), bv(b, w)
        ok = {'add': lambda: z3.And(z3.BVAddNoOverflow(A, B, sg), z3.BVAddNoUnderflow(A, B) if sg else z3.BoolVal(True)),
              'sub': lambda: z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, sg)) if sg else z3.BVSubNoUnderflow(A, B, False),
              'mul': lambda: z3.And(z3.BVMulNoOverflow(A, B, sg), z3.BVMulNoUnderflow(A, B) if sg else z3.BoolVal(True))}[op]()
        ov = ex.norm(z3.Not(ok))
    return (r, ov)


@I.rx(r'^llvm\.bswap\.i\d+$')
def _(ex, st, fr, fn, args, ins):
    w = iw(fn)
    v = args[0]
    if v is UNDEF:
        return v
    if isc(v):
        return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
    return M.simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)]))


@I.rx(r'^llvm\.bitreverse\.i\d+$')
def _(ex, st, fr, fn, args, ins):
    w = iw(fn)
    v = args[0]
    if v is UNDEF:
        return v
    if isc(v):
        return int(format(v, 'b').zfill(w)[::-1], 2)
    return M.simp(z3.Concat(*[z3.Extract(i, i, v) for i in range(w)]))


@I.rx(r'^llvm\.fsh[lr]\.i\d+$')
def _(ex, st, fr, fn, args, ins):
    w = iw(fn)
    a, b, s = args
    A, B = bv(a, w), bv(b, w)
    s = s % w if isc(s) else z3.URem(s, z3.BitVecVal(w, w))
    c = z3.Concat(A, B)
    S = z3.BitVecVal(s, 2 * w) if isc(s) else z3.ZeroExt(w, s)
    if 'fshl' in fn:
        return M.simp(z3.Extract(2 * w - 1, w, c << S))
    return M.simp(z3.Extract(w - 1, 0, z3.LShR(c, S)))


@I.rx(r'^llvm\.(ctlz|cttz|ctpop)\.i\d+$')
def _(ex, st, fr, fn, args, ins):
    w = iw(fn)
    v = args[0]
    if isc(v):
        if 'ctpop' in fn:
            return bin(v).count('1')
        if v == 0:
            return w
        return w - v.bit_length() if 'ctlz' in fn else (v & -v).bit_length() - 1
    r = z3.BitVecVal(w, w)
    if 'ctpop' in fn:
        r = z3.BitVecVal(0, w)
        for i in range(w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
    elif 'ctlz' in fn:
        for i in range(w):
            r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(w - 1 - i, w), r)
    else:
        for i in reversed(range(w)):
            r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i, w), r)
    return M.simp(r)


@I.rx(r'^llvm\.abs\.i\d+$')
def _(ex, st, fr, fn, args, ins):
    w = iw(fn)
    v = args[0]
    if isc(v):
        return (1 << w) - v if v >> (w - 1) else v
    return M.simp(z3.If(v < 0, -v, v))


@I.rx(r'^llvm\.(u|s)cmp\.i\d+\.i\d+$')
def _(ex, st, fr, fn, args, ins):
    m = re.match(r'llvm\.(u|s)cmp\.i(\d+)\.i(\d+)', fn)
    w, t = int(m.group(2)), ('i', int(m.group(3)))
    lt = ex.icmp(st, m.group(1) + 'lt', t, args[0], args[1])
    eq = ex.icmp(st, 'eq', t, args[0], args[1])
    return ex.select(st, lt, MASK[w], ex.select(st, eq, 0, 1, ('i', w)), ('i', w))


@I.rx(r'^llvm\.ptrmask')
def _(ex, st, fr, fn, args, ins):
    p, m = args
    if p.obj is None:
        return ex.toptr(st, ex.binop(st, 'and', ('i', 64), p.off, m, ()))
    if isc(p.off) and isc(m):
        low = ~m & MASK[64]
        if low < 1 << 12 and low & (low + 1) == 0:
            return Ptr(p.obj, p.off & m)
    raise Unsupported('ptrmask')


@I.rx(r'^llvm\.(fabs)\.f\d+$')
def _(ex, st, fr, fn, args, ins):
    w = int(fn.rsplit('f', 1)[1])
    return ex.binop(st, 'and', ('i', w), args[0], MASK[w - 1], ())


@I.rx(r'^llvm\.is\.constant')
def _(ex, st, fr, fn, args, ins):
    return False


@I.rx(r'^llvm\.(trap|ubsantrap)')
def _(ex, st, fr, fn, args, ins):
    raise GoPanic('abort')


@I.rx(r'^llvm\.threadlocal\.address')
def _(ex, st, fr, fn, args, ins):
    return args[0]


@I.rx(r'^llvm\.is\.fpclass\.f(32|64)$')
def _(ex, st, fr, fn, args, ins):
    x, mask = args
    if isinstance(x, float):
        raise Unsupported('classification of a float constant')
    w, man = (32, 23) if fn.endswith('32') else (64, 52)
    x = bv(x, w)
    mag = x & ((1 << (w - 1)) - 1)
    neg = z3.Extract(w - 1, w - 1, x) == 1
    inf = ((1 << (w - 1 - man)) - 1) << man
    quiet = z3.Extract(man - 1, man - 1, x) == 1
    sub = z3.And(mag != 0, z3.ULT(mag, 1 << man))
    norm = z3.And(z3.UGE(mag, 1 << man), z3.ULT(mag, inf))
    cls = {1: z3.And(z3.UGT(mag, inf), z3.Not(quiet)), 2: z3.And(z3.UGT(mag, inf), quiet),
           4: z3.And(neg, mag == inf), 8: z3.And(neg, norm), 16: z3.And(neg, sub), 32: z3.And(neg, mag == 0),
           64: z3.And(z3.Not(neg), mag == 0), 128: z3.And(z3.Not(neg), sub), 256: z3.And(z3.Not(neg), norm), 512: z3.And(z3.Not(neg), mag == inf)}
    return ex.norm(z3.Or([c for b, c in cls.items() if mask & b]))
