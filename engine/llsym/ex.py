"""Symbolic execution of LLVM IR on top of gosym's solver layer and byte memories."""
import z3
from gosym import mem as M
from gosym.mem import add, sub, isc, bv
from gosym.ex import Executor, GoPanic, PathEnd, Unsupported, Frame, State
from .ir import size_align, field_off, elem, PTR, VOID

MASK = [(1 << i) - 1 for i in range(129)]
OBJ_SHIFT = 40
GBASE = 1 << 60


class Ptr:
    """obj None: a bare address"""
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self):
        return f'Ptr({self.obj},{self.off})'


NULL = Ptr(None, 0)


class _U:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _U()


class Obj:
    """mem: byte chain; cells: offset -> (bytes, value) written over it"""
    __slots__ = ('mem', 'cells', 'size', 'live', 'align', 'kind', 'info')

    def __init__(self, mem, size, align=16, kind='heap', cells=None, live=True, info=None):
        self.mem, self.size, self.align, self.kind = mem, size, align, kind
        self.cells = cells or {}
        self.live, self.info = live, info

    def but(self, **kw):
        o = Obj(self.mem, self.size, self.align, self.kind, self.cells, self.live, self.info)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    own = ''


def isfn(p):
    return isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == 'fn'


def uaddr(n):
    return n


class LLExecutor(Executor):
    LOOP_FORKS = 64
    STEP_LIMIT = 600000

    def __init__(self, mod, intrinsics, timeout_ms=20000, mode=''):
        super().__init__(mod, intrinsics, timeout_ms, mode)
        self.m = mod
        self.gids = {}
        self.gnames = []
        self.ptrs = {}
        self.nr = {}
        self.fresh_id = 0

    # ---------------------------------------------------------------- frames
    def line(self, fr):
        return 0

    def push(self, st, fn, args, binds, ret, mode):
        if len(st.frames) > 200:
            raise GoPanic('stack overflow')
        fr = Frame()
        fr.fn, fr.blk, fr.ip, fr.prev = fn, 0, 0, -1
        fr.regs = [None] * fn['nreg']
        for i, a in enumerate(args):
            fr.regs[i] = a
        fr.defers, fr.ret, fr.mode, fr.panic, fr.recovering, fr.forks, fr.after = [], ret, mode, None, False, None, None
        st.frames.append(fr)
        self.encoded[fn['full']] = self.encoded.get(fn['full'], 0) + 1

    def explore(self, base, fid, deadline=None, max_paths=20000):
        self.p.fns = {fid: self.m.fn(fid)}
        return super().explore(base, fid, deadline, max_paths)

    def do_panic(self, st, e):
        fr = st.frames[-1]
        return ('panic', {'what': e.what, 'val': None, 'fn': fr.fn['full'], 'line': 0, 'pos': None})

    def step(self, st, fr, ins):
        getattr(self, 'l_' + ins['o'], self.l_unsup)(st, fr, ins)

    def l_unsup(self, st, fr, ins):
        raise Unsupported('instruction ' + ins['txt'])

    # ---------------------------------------------------------------- values
    def val(self, st, fr, v, t):
        k = v[0]
        if k == 'r':
            x = fr.regs[v[1]]
            if x is None:
                raise Unsupported('unset register')
            return x
        if k == 'c':
            return bool(v[1]) if t == ('i', 1) else v[1]
        if k == 'null':
            return NULL
        if k == 'g':
            return self.gptr(st, v[1])
        if k == 'u':
            return self.undef(t)
        if k == 'z':
            return self.zero(t)
        if k == 'agg':
            return tuple(self.val(st, fr, x, tt) for tt, x in v[1])
        if k == 'bytes':
            return tuple(v[1])
        if k == 'ce':
            return self.cexpr(st, fr, v)
        raise Unsupported('operand ' + k)

    def undef(self, t):
        if t[0] == 's':
            return tuple(self.undef(x) for x in t[2])
        if t[0] == 'a':
            return tuple(self.undef(t[2]) for _ in range(t[1]))
        return UNDEF

    def zero(self, t):
        if t[0] == 's':
            return tuple(self.zero(x) for x in t[2])
        if t[0] == 'a':
            return tuple(self.zero(t[2]) for _ in range(t[1]))
        if t == PTR:
            return NULL
        if t == ('i', 1):
            return False
        return 0

    def cexpr(self, st, fr, v):
        if v[1] == 'gep':
            _, _, et, ops = v
            p = self.val(st, fr, ops[0][1], PTR)
            return self.gep(st, p, et, [(t, self.val(st, fr, x, t)) for t, x in ops[1:]])
        if v[1] in ('add', 'sub', 'xor', 'mul'):
            _, op, t, a, b = v
            return self.binop(st, op, t, self.val(st, fr, a, t), self.val(st, fr, b, t), ())
        _, op, t, a, t2 = v
        return self.cast(st, op, t, self.val(st, fr, a, t), t2)

    # ---------------------------------------------------------------- globals and objects
    def gptr(self, st, name):
        m = self.m
        if name in m.defs or name in m.decls:
            return Ptr(('fn', name), 0)
        key = 'g:' + name
        if key not in st.heap:
            t, init, const = m.global_(name)
            if t == 'alias':
                return self.val(st, None, init, PTR)
            if init is None:
                raise Unsupported('external global ' + name)
            size = size_align(t)[0]
            o = Obj(M.ZERO, size, 16, 'const' if const else 'global')
            st.heap[key] = o
            cells, lits = {}, bytearray(size)
            self.initdata(st, t, init, 0, cells, lits)
            st.heap[key] = Obj(M.lit(lits), size, 16, 'const' if const else 'global', cells)
        return Ptr(key, 0)

    def initdata(self, st, t, v, off, cells, lits):
        k = v[0]
        if k in ('z', 'u'):
            return
        if k == 'bytes':
            lits[off:off + len(v[1])] = v[1]
            return
        if k == 'agg':
            for i, (tt, x) in enumerate(v[1]):
                o = field_off(t, i)[0] if t[0] == 's' else i * size_align(t[2])[0]
                self.initdata(st, tt, x, off + o, cells, lits)
            return
        n = size_align(t)[0]
        if k == 'c':
            lits[off:off + n] = int(v[1]).to_bytes(n, 'little')
            return
        x = self.val(st, None, v, t)
        if isinstance(x, int):
            lits[off:off + n] = x.to_bytes(n, 'little')
        elif isinstance(x, Ptr) and x.obj is None:
            lits[off:off + n] = x.off.to_bytes(n, 'little')
        else:
            cells[off] = (n, x)

    def new(self, st, o):
        i = st.nid
        st.nid += 1
        st.heap[i] = o
        return i

    def uninit(self, what):
        self.fresh_id += 1
        return M.arr(f'uninit!{what}!{self.fresh_id}')

    def ext_obj(self, st, mem, size, kind, align=1):
        return self.new(st, Obj(mem, size, align, kind))

    def addr(self, p):
        """the address of a pointer, as an integer"""
        if p.obj is None:
            return p.off
        if isinstance(p.obj, int):
            base = (p.obj + 1) << OBJ_SHIFT
        else:
            k = p.obj if isinstance(p.obj, str) else p.obj[1]
            if p.obj not in self.gids:
                self.gids[p.obj] = len(self.gnames)
                self.gnames.append(p.obj)
            base = GBASE + (self.gids[p.obj] << OBJ_SHIFT)
        r = add(base, p.off)
        if not isc(r):
            self.ptrs[M.key(r)] = p
        return r

    def toptr(self, st, x):
        if isinstance(x, (Ptr, _U)):
            return x
        if isc(x):
            o = self.obj_at(st, x)
            return Ptr(o[0], o[1]) if o else Ptr(None, x)
        p = self.ptrs.get(M.key(x))
        if p is not None:
            return p
        # base + symbolic offset
        if z3.is_app_of(x, z3.Z3_OP_BADD):
            for a in x.children():
                if z3.is_bv_value(a):
                    v = a.as_long()
                    for w in (v, (v + (1 << OBJ_SHIFT) - 1)):
                        o = self.obj_at(st, w & MASK[64])
                        if o and isinstance(o[0], (int, str)) and o[0] in st.heap:
                            b = self.addr(Ptr(o[0], 0))
                            return Ptr(o[0], sub(x, b))
        return Ptr(None, x)

    def obj_at(self, st, x):
        if x < (1 << OBJ_SHIFT):
            return None
        low = x & MASK[OBJ_SHIFT]
        if x >= GBASE:
            i = (x - GBASE) >> OBJ_SHIFT
            if i < len(self.gnames):
                return self.gnames[i], low
            return None
        i = (x >> OBJ_SHIFT) - 1
        if i in st.heap:
            return i, low
        return None

    def asint(self, st, v, n):
        """a cell's value as an integer of n bytes"""
        if isinstance(v, Ptr):
            return self.addr(v)
        if v is UNDEF:
            self.fresh_id += 1
            return z3.BitVec(f'undef!{self.fresh_id}', n * 8)
        if v is True or v is False:
            return int(v)
        return v

    # ---------------------------------------------------------------- memory
    def bad(self, st, msg, extra=()):
        fr = st.frames[-1]
        self.violation(st, 'memory: ' + msg, list(extra), 'memory')

    def access(self, st, p, n, what):
        """checks that [p, p+n) lies in a live object"""
        if isc(n) and n == 0:
            return None
        if p is UNDEF:
            raise Unsupported(f'{what} through an undefined pointer')
        if p.obj is None:
            off = p.off
            if not isc(n):
                # a bare address is fine for zero bytes
                if not self.branch(st, bv(n) != 0):
                    return None
            self.bad(st, f'{what} through {"a null" if isc(off) and off == 0 else "an invalid"} pointer')
            raise PathEnd('violated', what)
        if isinstance(p.obj, tuple):
            self.bad(st, f'{what} at a function')
            raise PathEnd('violated', what)
        o = st.heap[p.obj]
        if not o.live:
            if isc(n) or self.branch(st, bv(n) != 0):
                self.bad(st, f'{what} after free')
                raise PathEnd('violated', what)
            return None
        if isc(n) and isc(o.size) and isc(p.off):
            if p.off + n > o.size:
                self.bad(st, f'{what} out of bounds')
                raise PathEnd('violated', what)
            return o
        size = o.size
        le = lambda a, b: self.norm(z3.ULE(bv(a), bv(b))) if not (isc(a) and isc(b)) else a <= b
        ok = self.conj(le(n, size), le(p.off, sub(size, n)))
        if ok is not True:
            d = self.decide(st, ok)
            if d is not True:
                if d is None and not isc(n):
                    # no bytes, no access
                    if not self.branch(st, bv(n) != 0):
                        return None
                nok = z3.BoolVal(True) if ok is False else z3.Not(ok)
                r, m = self.xcheck(st.pc + [nok])
                if r == 'sat':
                    self.bad(st, f'{what} out of bounds', [nok])
                    if d is False or self.check(st.pc + [ok])[0] == 'unsat':
                        raise PathEnd('violated', what)
                elif r == 'unknown':
                    self.undecided.append(f'memory: {what} out of bounds')
                self.addpc(st, ok)
        return o

    def flush(self, st, oid):
        """integer cells become bytes of the chain; pointers stay"""
        o = st.heap[oid]
        if not o.cells:
            return o
        mem = o.mem
        keep = {}
        for off in sorted(o.cells):
            n, v = o.cells[off]
            if isinstance(v, Ptr) and v.obj is not None:
                keep[off] = (n, v)
                continue
            v = self.asint(st, v, n)
            for i in range(n):
                mem = M.store(mem, off + i, self.byte(v, i, n * 8))
        o = o.but(mem=mem, cells=keep)
        st.heap[oid] = o
        return o

    def byte(self, v, i, w):
        if isc(v):
            return (v >> (8 * i)) & 255
        if w == 8:
            return v
        return M.simp(z3.Extract(8 * i + 7, 8 * i, bv(v, w)))

    def getbyte(self, st, oid, off):
        """one byte at a concrete or symbolic offset"""
        o = st.heap[oid]
        if isc(off):
            c = o.cells
            for d in range(0, 16):
                e = c.get(off - d)
                if e is not None:
                    if e[0] > d:
                        return self.byte(self.asint(st, e[1], e[0]), d, e[0] * 8)
                    break
            return M.readp(o.mem, off)
        if o.cells:
            o = self.flush(st, oid)
            if o.cells:
                raise Unsupported('symbolic access to an object with pointers')
        return M.readp(o.mem, off)

    def load_int(self, st, p, n):
        o = self.access(st, p, n, 'load')
        off = p.off
        if isc(off):
            e = o.cells.get(off)
            if e is not None and e[0] == n:
                return e[1]
        elif o.cells:
            if len(o.cells) and any(isinstance(v, Ptr) for _, v in o.cells.values()):
                off = self.concretize(st, off, 64, 'address')
                return self.load_int(st, Ptr(p.obj, off), n)
            self.flush(st, p.obj)
        bs = [self.getbyte(st, p.obj, add(off, i)) for i in range(n)]
        if all(isc(b) for b in bs):
            return int.from_bytes(bytes(bs), 'little')
        if n == 1:
            return bs[0]
        return M.simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    def load(self, st, p, t=None):
        k = t[0]
        if k == 's':
            return tuple(self.load(st, self.padd(p, field_off(t, i)[0]), field_off(t, i)[1]) for i in range(len(t[2])))
        if k == 'a':
            s = size_align(t[2])[0]
            return tuple(self.load(st, self.padd(p, i * s), t[2]) for i in range(t[1]))
        n = size_align(t)[0]
        v = self.load_int(st, p, n)
        if v is UNDEF:
            return UNDEF
        if t == PTR:
            return self.toptr(st, v)
        if isinstance(v, Ptr):
            v = self.addr(v)
        if k == 'i':
            return self.narrow(v, n * 8, t[1])
        if k == 'f':
            return v
        raise Unsupported('load of ' + repr(t))

    def narrow(self, v, w, w2):
        if w2 == 1:
            if isc(v):
                return bool(v & 1)
            return self.norm(z3.Extract(0, 0, v) == 1)
        if w == w2:
            return v
        if isc(v):
            return v & MASK[w2]
        return M.simp(z3.Extract(w2 - 1, 0, v))

    def padd(self, p, n):
        if isc(n) and n == 0:
            return p
        if p is UNDEF:
            return UNDEF
        return Ptr(p.obj, add(p.off, n))

    def store(self, st, p, v, t=None):
        k = t[0]
        if k == 's':
            for i in range(len(t[2])):
                o, ft = field_off(t, i)
                self.store(st, self.padd(p, o), v[i], ft)
            return
        if k == 'a':
            s = size_align(t[2])[0]
            for i in range(t[1]):
                self.store(st, self.padd(p, i * s), v[i], t[2])
            return
        n = size_align(t)[0]
        o = self.access(st, p, n, 'store')
        if o.kind == 'const':
            self.bad(st, 'store to constant memory')
            raise PathEnd('violated', 'store')
        if t == ('i', 1):
            v = int(v) if isinstance(v, bool) else M.simp(z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        elif k == 'i' and t[1] != n * 8 and v is not UNDEF:
            v = v if isc(v) else z3.ZeroExt(n * 8 - t[1], v)
        off = p.off
        if not isc(off):
            if o.cells:
                o = self.flush(st, p.obj)
                if o.cells:
                    off = self.concretize(st, off, 64, 'address')
        if isc(off):
            self.setcell(st, p.obj, off, n, v)
            return
        if isinstance(v, Ptr) and v.obj is not None:
            off = self.concretize(st, off, 64, 'address')
            self.setcell(st, p.obj, off, n, v)
            return
        v = self.asint(st, v, n)
        mem = o.mem
        for i in range(n):
            mem = M.store(mem, add(off, i), self.byte(v, i, n * 8))
        st.heap[p.obj] = o.but(mem=mem)

    def setcell(self, st, oid, off, n, v):
        o = st.heap[oid]
        c = dict(o.cells)
        self.carve(st, c, off, n)
        c[off] = (n, v)
        st.heap[oid] = o.but(cells=c)

    def carve(self, st, c, off, n):
        """drop [off, off+n) from the cells, splitting what sticks out"""
        for k in [k for k in c if k < off + n and k + c[k][0] > off]:
            w, v = c.pop(k)
            if k < off or k + w > off + n:
                x = self.asint(st, v, w)
                for i in range(w):
                    if not off <= k + i < off + n:
                        c[k + i] = (1, self.byte(x, i, w * 8))

    def memmove(self, st, d, s, n):
        """n bytes, any overlap (the source is read first)"""
        if isc(n) and n == 0:
            return
        so = self.access(st, s, n, 'memcpy source')
        if so is None:
            return
        do = self.access(st, d, n, 'memcpy destination')
        if do is None:
            return
        if do.kind == 'const':
            self.bad(st, 'store to constant memory')
            raise PathEnd('violated', 'store')
        so = st.heap[s.obj]
        hasptr = any(isinstance(v, Ptr) and v.obj is not None for _, v in so.cells.values())
        if hasptr and not isc(n):
            n = self.concretize(st, n, 16, 'copy length')
        if hasptr and not isc(s.off):
            s = Ptr(s.obj, self.concretize(st, s.off, 16, 'copy offset'))
        if isc(n) and isc(s.off) and isc(d.off) and n <= 512:
            cells = {}
            src = dict(so.cells)
            # cells cut by the ends of the range become bytes
            ends = {}
            for k in list(src):
                w, v = src[k]
                if k >= s.off + n or k + w <= s.off:
                    continue
                if k < s.off or k + w > s.off + n:
                    x = self.asint(st, v, w)
                    for i in range(w):
                        if s.off <= k + i < s.off + n:
                            cells[k + i - s.off] = (1, self.byte(x, i, w * 8))
                else:
                    cells[k - s.off] = (w, v)
            do = st.heap[d.obj]
            dc = dict(do.cells)
            self.carve(st, dc, d.off, n)
            mem = do.mem
            covered = set()
            for k, (w, v) in cells.items():
                covered.update(range(k, k + w))
            if len(covered) < n:
                if n <= 64:
                    vals = [(i, M.readp(so.mem, s.off + i)) for i in range(n) if i not in covered]
                    for i, b in vals:
                        mem = M.store(mem, d.off + i, b)
                else:
                    mem = M.copy(mem, d.off, so.mem, s.off, n)
            for k, e in cells.items():
                dc[d.off + k] = e
            st.heap[d.obj] = do.but(mem=mem, cells=dc)
            return
        so = self.flush(st, s.obj)
        do = self.flush(st, d.obj)
        if so.cells and not (isc(n) and isc(s.off)):
            raise Unsupported('copy of an object with pointers')
        if do.cells:
            for k, (w, v) in do.cells.items():
                ov = self.conj(self.norm(z3.ULT(bv(k), bv(add(d.off, n)))), self.norm(z3.ULT(bv(d.off), z3.BitVecVal(k + w, 64))))
                if ov is not False and self.decide(st, ov) is not False:
                    raise Unsupported('copy over pointers')
        st.heap[d.obj] = do.but(mem=M.copy(do.mem, d.off, so.mem, s.off, n))

    def memset(self, st, d, b, n):
        if isc(n) and n == 0:
            return
        o = self.access(st, d, n, 'memset')
        if o is None:
            return
        if isc(n) and isc(d.off) and n <= 64:
            o = st.heap[d.obj]
            c = dict(o.cells)
            self.carve(st, c, d.off, n)
            mem = o.mem
            for i in range(n):
                mem = M.store(mem, d.off + i, b)
            st.heap[d.obj] = o.but(mem=mem, cells=c)
            return
        o = self.flush(st, d.obj)
        if o.cells:
            if not (isc(n) and isc(d.off)):
                raise Unsupported('memset over pointers')
            c = dict(o.cells)
            self.carve(st, c, d.off, n)
            o = o.but(cells=c)
        st.heap[d.obj] = o.but(mem=M.fill(o.mem, d.off, n, b))

    def bytesat(self, st, p):
        """(chain, offset) of the bytes at p, for reads whose bounds are checked elsewhere"""
        if p.obj is None:
            return M.ZERO, 0
        o = self.flush(st, p.obj)
        if o.cells:
            raise Unsupported('bytes of an object with pointers')
        return o.mem, p.off

    # ---------------------------------------------------------------- heap calls
    def alloc(self, st, size, align, zeroed, kind='heap'):
        a = align if isc(align) else self.concretize(st, align, 8, 'alignment')
        mem = M.ZERO if zeroed else self.uninit('heap')
        return Ptr(self.new(st, Obj(mem, size, a, kind)), 0)

    def check_free(self, st, p, size, align, what):
        if p is UNDEF or p.obj is None or not isinstance(p.obj, int):
            self.bad(st, f'{what} of a pointer that was not allocated')
            raise PathEnd('violated', what)
        o = st.heap[p.obj]
        if o.kind != 'heap' and o.kind != 'vec':
            self.bad(st, f'{what} of {o.kind} memory')
            raise PathEnd('violated', what)
        if not o.live:
            self.bad(st, f'{what} of freed memory')
            raise PathEnd('violated', what)
        for c, why in ((self.norm(M.eq_(p.off, 0)), 'inside an allocation'), (self.norm(M.eq_(size, o.size)), 'with the wrong size'),
                       (self.norm(M.eq_(align, o.align)), 'with the wrong alignment')):
            if c is True:
                continue
            if c is False:
                self.bad(st, f'{what} {why}')
                raise PathEnd('violated', what)
            if self.decide(st, c) is not True:
                r, m = self.xcheck(st.pc + [z3.Not(c)])
                if r == 'sat':
                    self.bad(st, f'{what} {why}', [z3.Not(c)])
                elif r == 'unknown':
                    self.undecided.append(f'memory: {what} {why}')
                self.assume(st, c)
        return o

    def dealloc(self, st, p, size, align):
        o = self.check_free(st, p, size, align, 'free')
        st.heap[p.obj] = o.but(live=False)

    # ---------------------------------------------------------------- instructions
    def setr(self, fr, ins, v):
        if ins['r'] is not None:
            fr.regs[ins['r']] = v
        fr.ip += 1

    def goto(self, fr, b):
        fr.prev, fr.blk, fr.ip = fr.blk, b, 0

    def l_ret(self, st, fr, ins):
        v = None if ins['v'] is None else self.val(st, fr, ins['v'], ins['t'])
        st.frames.pop()
        for i in fr.defers:
            o = st.heap[i]
            st.heap[i] = o.but(live=False)
        if not st.frames:
            return
        up = st.frames[-1]
        m = fr.mode
        if callable(m):
            m(self, st, up, v)
            return
        if fr.ret is not None:
            up.regs[fr.ret] = v
        if isinstance(m, tuple):
            self.goto(up, m[1])
        else:
            up.ip += 1

    def l_jmp(self, st, fr, ins):
        self.goto(fr, ins['d'])

    def cond(self, c):
        if c is UNDEF:
            raise Unsupported('branch on an undefined value')
        if isinstance(c, bool) or isinstance(c, z3.BoolRef):
            return c
        return bool(c & 1) if isc(c) else z3.Extract(0, 0, c) == 1

    def l_br(self, st, fr, ins):
        c = self.cond(self.val(st, fr, ins['c'], ('i', 1)))
        r = self.branch(st, c)
        if not isinstance(c, bool) and len(st.decided) and st.decided[-1] == r:
            self.note_fork_if(st, fr)
        self.goto(fr, ins['d'][0 if r else 1])

    def note_fork_if(self, st, fr):
        if fr.forks is None:
            fr.forks = {}
        k = (fr.blk, fr.ip)
        n = fr.forks.get(k, 0) + 1
        fr.forks[k] = n
        if n > self.LOOP_FORKS:
            raise PathEnd('bound', f'loop bound {self.LOOP_FORKS} in {fr.fn["full"]}')

    def l_switch(self, st, fr, ins):
        c = self.val(st, fr, ins['c'], ins['t'])
        w = ins['t'][1]
        if c is UNDEF:
            raise Unsupported('switch on an undefined value')
        if isinstance(c, bool):
            c = int(c)
        if isc(c):
            for v, b in ins['cases']:
                if int(v) == c:
                    return self.goto(fr, b)
            return self.goto(fr, ins['def'])
        # one target at a time
        groups = {}
        for v, b in ins['cases']:
            groups.setdefault(b, []).append(int(v))
        if isinstance(c, z3.BoolRef):
            mk = lambda v: c if v else z3.Not(c)
        else:
            mk = lambda v: c == v
        for b, vs in groups.items():
            e = mk(vs[0]) if len(vs) == 1 else z3.Or(*[mk(v) for v in vs])
            if self.branch(st, e):
                return self.goto(fr, b)
        self.goto(fr, ins['def'])

    def l_unreachable(self, st, fr, ins):
        self.bad(st, 'unreachable code reached (undefined behaviour)')
        raise PathEnd('violated', 'unreachable')

    def l_resume(self, st, fr, ins):
        raise Unsupported('resume')

    def l_alloca(self, st, fr, ins):
        i = self.new(st, Obj(self.uninit('stack'), ins['size'], 16, 'stack'))
        fr.defers.append(i)
        self.setr(fr, ins, Ptr(i, 0))

    def l_load(self, st, fr, ins):
        p = self.val(st, fr, ins['p'], PTR)
        self.setr(fr, ins, self.load(st, p, ins['t']))

    def l_store(self, st, fr, ins):
        v = self.val(st, fr, ins['v'], ins['t'])
        p = self.val(st, fr, ins['p'], PTR)
        self.store(st, p, v, ins['t'])
        fr.ip += 1

    def sext64(self, v, t):
        w = t[1]
        if w == 64:
            return v
        if isc(v):
            return (v - (1 << w) if v >> (w - 1) else v) & MASK[64]
        return M.simp(z3.SignExt(64 - w, v))

    def mul64(self, v, k):
        if k == 1:
            return v
        if isc(v):
            return v * k & MASK[64]
        return M.simp(v * k)

    def gep(self, st, p, t, ix):
        if p is UNDEF:
            return UNDEF
        off = p.off
        it, v = ix[0]
        if v is UNDEF:
            return UNDEF
        off = add(off, self.mul64(self.sext64(v, it), size_align(t)[0]))
        for it, v in ix[1:]:
            if t[0] == 's':
                o, t = field_off(t, v)
                off = add(off, o)
            else:
                t = t[2]
                off = add(off, self.mul64(self.sext64(v, it), size_align(t)[0]))
        return Ptr(p.obj, off)

    def l_gep(self, st, fr, ins):
        p = self.val(st, fr, ins['p'], PTR)
        self.setr(fr, ins, self.gep(st, p, ins['t'], [(t, self.val(st, fr, v, t)) for t, v in ins['ix']]))

    def b1(self, x):
        return z3.BoolVal(x) if isinstance(x, bool) else x

    def binop(self, st, op, t, x, y, fl):
        if t[0] != 'i':
            raise Unsupported(f'{op} on {t}')
        if x is UNDEF or y is UNDEF:
            if op in ('and', 'mul') and (x == 0 or y == 0) and not (isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef)):
                return 0
            return UNDEF
        w = t[1]
        if w == 1:
            if isinstance(x, bool) and isinstance(y, bool):
                r = {'and': x and y, 'or': x or y, 'xor': x != y, 'add': x != y, 'sub': x != y, 'mul': x and y}.get(op)
                if r is None:
                    raise Unsupported(op + ' i1')
                return r
            X, Y = self.b1(x), self.b1(y)
            if op in ('and', 'mul'):
                return self.norm(z3.And(X, Y))
            if op == 'or':
                return self.norm(z3.Or(X, Y))
            if op in ('xor', 'add', 'sub'):
                return self.norm(z3.Xor(X, Y)) if not isinstance(y, bool) else (self.norm(z3.Not(X)) if y else x)
            raise Unsupported(op + ' i1')
        mask = MASK[w]
        if isc(x) and isc(y):
            s = lambda a: a - (1 << w) if a >> (w - 1) else a
            if op == 'add':
                return x + y & mask
            if op == 'sub':
                return x - y & mask
            if op == 'mul':
                return x * y & mask
            if op == 'and':
                return x & y
            if op == 'or':
                return x | y
            if op == 'xor':
                return x ^ y
            if op == 'shl':
                return x << y & mask if y < w else UNDEF
            if op == 'lshr':
                return x >> y if y < w else UNDEF
            if op == 'ashr':
                return s(x) >> y & mask if y < w else UNDEF
            if y == 0:
                self.bad(st, 'division by zero')
                raise PathEnd('violated', 'division')
            if op == 'udiv':
                return x // y
            if op == 'urem':
                return x % y
            a, b = s(x), s(y)
            q = abs(a) // abs(b)
            q = q if (a < 0) == (b < 0) else -q
            return (q if op == 'sdiv' else a - q * b) & mask
        if w == 64:
            if op == 'add':
                return add(x, y)
            if op == 'sub':
                return sub(x, y)
        X, Y = bv(x, w), bv(y, w)
        if op == 'add':
            r = X + Y
        elif op == 'sub':
            r = X - Y
        elif op == 'mul':
            r = X * Y
        elif op == 'and':
            # tag bits of pointers
            if w == 64 and isc(y) and y < 8:
                p = self.ptrs.get(M.key(x))
                if p is not None and isc(p.off):
                    return p.off & y
            r = X & Y
        elif op == 'or':
            r = X + Y if 'disjoint' in fl and False else X | Y
        elif op == 'xor':
            r = X ^ Y
        elif op == 'shl':
            r = X << Y
        elif op == 'lshr':
            r = z3.LShR(X, Y)
        elif op == 'ashr':
            r = X >> Y
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not isc(y) and self.branch(st, Y == 0):
                self.bad(st, 'division by zero')
                raise PathEnd('violated', 'division')
            r = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda a, b: a / b, 'srem': z3.SRem}[op](X, Y)
        else:
            raise Unsupported(op)
        return M.simp(r)

    def l_bin(self, st, fr, ins):
        t = ins['t']
        self.setr(fr, ins, self.binop(st, ins['op'], t, self.val(st, fr, ins['a'], t), self.val(st, fr, ins['b'], t), ins['fl']))

    def icmp(self, st, op, t, x, y):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if t == PTR:
            if not isinstance(x, Ptr):
                x = self.toptr(st, x)
            if not isinstance(y, Ptr):
                y = self.toptr(st, y)
            if op in ('eq', 'ne'):
                if x.obj is None and y.obj is None:
                    c = self.norm(M.eq_(x.off, y.off)) if not (isc(x.off) and isc(y.off)) else x.off == y.off
                elif x.obj == y.obj:
                    c = M.eq_(x.off, y.off)
                    c = c if isinstance(c, bool) else self.norm(c)
                else:
                    c = False
                return c if op == 'eq' else self.neg(c)
            if x.obj == y.obj and x.obj is not None:
                return self.icmp(st, op, ('i', 64), x.off, y.off)
            return self.icmp(st, op, ('i', 64), self.addr(x), self.addr(y))
        w = t[1]
        if w == 1:
            if op in ('eq', 'ne'):
                if isinstance(x, bool) and isinstance(y, bool):
                    return (x == y) == (op == 'eq')
                c = self.norm(self.b1(x) == self.b1(y))
                return c if op == 'eq' else self.neg(c)
            x, y = [int(v) if isinstance(v, bool) else z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for v in (x, y)]
        if isc(x) and isc(y):
            if op[0] == 's':
                x, y = [a - (1 << w) if a >> (w - 1) else a for a in (x, y)]
                op = 'u' + op[1:]
            return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[op]
        X, Y = bv(x, w), bv(y, w)
        c = {'eq': lambda: X == Y, 'ne': lambda: X != Y, 'ult': lambda: z3.ULT(X, Y), 'ule': lambda: z3.ULE(X, Y), 'ugt': lambda: z3.UGT(X, Y),
             'uge': lambda: z3.UGE(X, Y), 'slt': lambda: X < Y, 'sle': lambda: X <= Y, 'sgt': lambda: X > Y, 'sge': lambda: X >= Y}[op]()
        return self.norm(c)

    def neg(self, c):
        if isinstance(c, bool):
            return not c
        return self.norm(z3.Not(c))

    def l_icmp(self, st, fr, ins):
        t = ins['t']
        self.setr(fr, ins, self.icmp(st, ins['op'], t, self.val(st, fr, ins['a'], t), self.val(st, fr, ins['b'], t)))

    def cast(self, st, op, t, x, t2):
        if x is UNDEF:
            return UNDEF
        if op == 'ptrtoint' or op == 'ptrtoaddr':
            a = self.addr(x)
            return a if t2[1] == 64 else self.narrow(a, 64, t2[1])
        if op == 'inttoptr':
            return self.toptr(st, x)
        if op == 'bitcast' or op == 'addrspacecast':
            return x
        if t[0] != 'i' or t2[0] != 'i':
            raise Unsupported('cast ' + op)
        w, w2 = t[1], t2[1]
        if op == 'trunc':
            return self.narrow(x, w, w2)
        if w == 1:
            on = 1 if op == 'zext' else MASK[w2]
            if isinstance(x, bool):
                return on if x else 0
            return M.simp(z3.If(x, z3.BitVecVal(on, w2), z3.BitVecVal(0, w2)))
        if isc(x):
            if op == 'sext' and x >> (w - 1):
                x -= 1 << w
            return x & MASK[w2]
        return M.simp((z3.ZeroExt if op == 'zext' else z3.SignExt)(w2 - w, x))

    def l_cast(self, st, fr, ins):
        self.setr(fr, ins, self.cast(st, ins['op'], ins['t'], self.val(st, fr, ins['a'], ins['t']), ins['t2']))

    def l_select(self, st, fr, ins):
        c = self.val(st, fr, ins['c'], ins['ct'])
        t = ins['t']
        a, b = self.val(st, fr, ins['a'], t), self.val(st, fr, ins['b'], t)
        if ins['ct'] != ('i', 1):
            raise Unsupported('vector select')
        self.setr(fr, ins, self.select(st, c, a, b, t))

    def select(self, st, c, a, b, t):
        c = self.cond(c)
        if isinstance(c, bool):
            return a if c else b
        if t[0] == 'i' and a is not UNDEF and b is not UNDEF:
            if isc(a) and isc(b) and a == b and type(a) is type(b):
                return a
            if t[1] == 1:
                return self.norm(z3.If(c, self.b1(a), self.b1(b)))
            if t[1] < 64:
                return M.simp(z3.If(c, bv(a, t[1]), bv(b, t[1])))
        return a if self.branch(st, c) else b

    def l_phi(self, st, fr, ins):
        # all phis of a block read the values on entry
        blk = fr.fn['b'][fr.blk]['i']
        vals = []
        i = fr.ip
        while i < len(blk) and blk[i]['o'] == 'phi':
            p = blk[i]
            vals.append((p['r'], self.val(st, fr, p['e'][fr.prev], p['t'])))
            i += 1
        for r, v in vals:
            fr.regs[r] = v
        fr.ip = i

    def l_extractvalue(self, st, fr, ins):
        v = self.val(st, fr, ins['a'], ins['t'])
        for i in ins['ix']:
            if v is UNDEF:
                break
            v = v[i]
        self.setr(fr, ins, v)

    def l_insertvalue(self, st, fr, ins):
        v = self.val(st, fr, ins['a'], ins['t'])
        x = self.val(st, fr, ins['b'], ins['et'])

        def put(v, ix):
            if not ix:
                return x
            l = list(v)
            l[ix[0]] = put(l[ix[0]], ix[1:])
            return tuple(l)
        self.setr(fr, ins, put(v, ins['ix']))

    def l_freeze(self, st, fr, ins):
        v = self.val(st, fr, ins['a'], ins['t'])
        if v is UNDEF:
            t = ins['t']
            if t == PTR:
                v = NULL
            else:
                self.fresh_id += 1
                n = f'freeze!{self.fresh_id}'
                v = z3.Bool(n) if t[1] == 1 else z3.BitVec(n, t[1])
        self.setr(fr, ins, v)

    def l_fence(self, st, fr, ins):
        fr.ip += 1

    def l_fneg(self, st, fr, ins):
        w = ins['t'][1]
        v = self.val(st, fr, ins['a'], ins['t'])
        self.setr(fr, ins, v ^ (1 << (w - 1)) if isc(v) else M.simp(v ^ z3.BitVecVal(1 << (w - 1), w)))

    def l_call(self, st, fr, ins):
        f = ins['f']
        if f == ('asm',):
            fr.ip += 1
            return
        f = self.val(st, fr, f, PTR)
        if not isfn(f):
            if isinstance(f, Ptr) and f.obj is None:
                self.bad(st, 'call through an invalid pointer')
                raise PathEnd('violated', 'call')
            raise Unsupported('indirect call')
        name = f.obj[1]
        args = [self.val(st, fr, v, t) for t, v in ins['args']]
        self.callee = name
        h = self.intr.find(name, self)
        if h is not None:
            r = h(self, st, fr, name, args, ins)
            if r is CALLED:
                return
            if ins['r'] is not None:
                fr.regs[ins['r']] = r
            if 'to' in ins:
                self.goto(fr, ins['to'])
            else:
                fr.ip += 1
            return
        if name not in self.m.defs:
            if name not in self.nr:
                self.nr[name] = self.m.noreturn(name)
            if self.nr[name]:
                raise GoPanic(self.demangle(name))
            raise Unsupported('call of ' + name)
        if name not in self.nr:
            self.nr[name] = self.m.noreturn(name)
        if self.nr[name] and not name.startswith('h_'):
            raise GoPanic(self.demangle(name))
        try:
            fn = self.m.fn(name)
        except SyntaxError as e:
            raise Unsupported(f'cannot read {name}: {e}')
        self.push(st, fn, args, (), ins['r'], ('goto', ins['to']) if 'to' in ins else 'call')

    names = None

    def demangle(self, n):
        return self.names.get(n, n) if self.names else n


CALLED = object()
