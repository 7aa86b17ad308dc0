"""Path-forking symbolic executor for go/ssa."""
import json, struct, time
import z3
from . import mem as M
from .lia import Lia
from .mem import add, sub, isc, bv, ult_, eq_, M64

WID = {'bool': 1, 'int': 64, 'int8': 8, 'int16': 16, 'int32': 32, 'int64': 64, 'uint': 64, 'uint8': 8, 'uint16': 16,
       'uint32': 32, 'uint64': 64, 'uintptr': 64, 'float32': 32, 'float64': 64, 'byte': 8, 'rune': 32,
       'untyped int': 64, 'untyped rune': 32, 'untyped bool': 1, 'untyped float': 64}
SGN = {'int', 'int8', 'int16', 'int32', 'int64', 'rune', 'untyped int', 'untyped rune'}
FLT = {'float32', 'float64', 'untyped float'}
STRS = {'string', 'untyped string'}
MAXLEN = 1 << 40


class GoPanic(Exception):
    def __init__(self, what, val=None):
        self.what, self.val = what, val


class PathEnd(Exception):
    def __init__(self, why, msg=''):
        self.why, self.msg = why, msg


class Unsupported(Exception):
    pass


class Slice:
    __slots__ = ('obj', 'path', 'off', 'len', 'cap')

    def __init__(self, obj, path, off, ln, cap):
        self.obj, self.path, self.off, self.len, self.cap = obj, path, off, ln, cap

    def __repr__(self):
        return f'Slice({self.obj},{self.path},{self.off},{self.len},{self.cap})'


NILS = Slice(None, (), 0, 0, 0)


class Str:
    __slots__ = ('obj', 'off', 'len')

    def __init__(self, obj, off, ln):
        self.obj, self.off, self.len = obj, off, ln

    def __repr__(self):
        return f'Str({self.obj},{self.off},{self.len})'


EMPTY = Str(None, 0, 0)


class Ptr:
    __slots__ = ('obj', 'path')

    def __init__(self, obj, path=()):
        self.obj, self.path = obj, path

    def __repr__(self):
        return f'Ptr({self.obj},{self.path})'


class Iface:
    __slots__ = ('t', 'v')

    def __init__(self, t, v):
        self.t, self.v = t, v

    def __repr__(self):
        return f'Iface({self.t},{self.v})'


class Fn:
    __slots__ = ('id', 'binds')

    def __init__(self, i, binds=()):
        self.id, self.binds = i, binds


class MapRef:
    __slots__ = ('obj',)

    def __init__(self, o):
        self.obj = o


class ByteArr:
    __slots__ = ('mem', 'n')

    def __init__(self, mem, n):
        self.mem, self.n = mem, n


class Iter:
    __slots__ = ('obj', 'pos')

    def __init__(self, obj):
        self.obj = obj


class OBytes:
    __slots__ = ('mem', 'size', 'own')

    def __init__(self, mem, size, own=''):
        self.mem, self.size, self.own = mem, size, own


class OCells:
    __slots__ = ('val', 'own')

    def __init__(self, val, own=''):
        self.val, self.own = val, own


class OMap:
    __slots__ = ('ents', 'own')

    def __init__(self, ents, own=''):
        self.ents, self.own = ents, own


class OIter:
    __slots__ = ('items', 'pos', 'own')

    def __init__(self, items, pos):
        self.items, self.pos, self.own = items, pos, ''


class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'prev', 'regs', 'defers', 'ret', 'mode', 'panic', 'recovering', 'forks', 'after')

    def clone(self):
        f = Frame()
        f.fn, f.blk, f.ip, f.prev = self.fn, self.blk, self.ip, self.prev
        f.regs = list(self.regs)
        f.defers = list(self.defers)
        f.ret, f.mode, f.panic, f.recovering = self.ret, self.mode, self.panic, self.recovering
        f.forks = dict(self.forks) if self.forks else None
        f.after = self.after
        return f


class State:
    __slots__ = ('frames', 'heap', 'nid', 'pc', 'model', 'inputs', 'names', 'pools', 'events', 'decided', 'dpos', 'conc',
                 'steps', 'labels', 'caps', 'trace', 'dead')

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.heap = dict(self.heap)
        s.nid = self.nid
        s.pc = list(self.pc)
        s.model = self.model
        s.inputs = list(self.inputs)
        s.names = dict(self.names)
        s.pools = dict(self.pools)
        s.events = list(self.events)
        s.decided = list(self.decided)
        s.dpos = self.dpos
        s.conc = dict(self.conc)
        s.steps = self.steps
        s.labels = set(self.labels)
        s.caps = list(self.caps)
        s.trace = None
        s.dead = None
        return s


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types, self.fns, self.globals = d['types'], d['fns'], d['globals']
        self.roots, self.mtab, self.inits, self.files = d['roots'], d['mtab'], d['inits'], d['files']
        for i, f in enumerate(self.fns):
            f['id'] = i
            n = f['n']
            f['intr'] = None
        self.under = []
        for i, t in enumerate(self.types):
            j = i
            while self.types[j]['k'] == 'named':
                j = self.types[j]['u']
            self.under.append(j)
        self.byname = {}
        for i, t in enumerate(self.types):
            self.byname.setdefault(t['s'], i)

    def u(self, t):
        return self.types[self.under[t]]


class Stats:
    def __init__(self):
        self.steps = 0
        self.rechecked = self.recheck_unknown = 0
        self.queries = 0
        self.qtime = 0.0
        self.unknown = 0
        self.maxq = 0.0
        self.sat = 0
        self.unsat = 0
        self.xqueries = self.xsat = self.xunsat = self.xunknown = 0
        self.xtime = 0.0


class Executor:
    LOOP_FORKS = 48
    RECHECK = None
    STEP_LIMIT = 400000

    def __init__(self, prog, intrinsics, timeout_ms=20000, mode=''):
        self.p = prog
        self.intr = intrinsics
        self.stats = Stats()
        self.timeout_ms = timeout_ms
        self.mode = mode
        self.encoded = {}
        self.zero_cache = {}
        self.const_cache = {}
        self.work = []
        self.asserts = {}
        self.violations = []
        self.undecided = []
        self.fresh = 0
        self.initing = False
        self.deadline = None
        self.exact_caps = False
        self.qlog = None
        self.inc = None
        self.incn = 0
        self.stack = []
        self.lia = Lia()
        self.lia_ms = 3000
        self.prune = False

    # ---------- solver
    # Path decisions use the linear view (lia.py), whose models include every
    # model of the bit-vector constraints; 'unsat' is final.  Whatever is going to
    # be reported is decided by xcheck on the bit-vector constraints themselves.
    def check(self, cs):
        t = time.time()
        s = self.inc
        if s is None or self.incn > 600:
            s = self.inc = z3.SimpleSolver()
            s.set('timeout', self.lia_ms)
            self.stack = []
            self.incn = 0
        self.incn += 1
        for c in cs:
            self.lia.tobool(c)
        if self.lia.dirty:
            # more variables are seen bitwise: translate afresh
            self.lia.dirty = False
            for c in cs:
                self.lia.tobool(c)
            s = self.inc = z3.SimpleSolver()
            s.set('timeout', self.lia_ms)
            self.stack = []
        k = 0
        stk = self.stack
        while k < len(stk) and k < len(cs) and (stk[k] is cs[k] or stk[k].eq(cs[k])):
            k += 1
        if k < len(stk):
            s.pop(len(stk) - k)
            del stk[k:]
        for c in cs[k:]:
            s.push()
            e, deps = self.lia.tobool(c)
            s.add(e, *deps)
            stk.append(c)
        r = s.check()
        dt = time.time() - t
        st = self.stats
        st.queries += 1
        st.qtime += dt
        st.maxq = max(st.maxq, dt)
        if r == z3.sat:
            st.sat += 1
            return 'sat', s.model()
        if r == z3.unsat:
            st.unsat += 1
            return 'unsat', None
        st.unknown += 1
        self.inc = None
        return 'unknown', None

    def xcheck(self, cs, ms=None):
        """exact: bit-vectors and byte functions"""
        t = time.time()
        r = z3.unknown
        for mk in (z3.SimpleSolver, lambda: z3.SolverFor('QF_UFBV'))[:1 if ms else 2]:
            s = mk()
            s.set('timeout', ms or self.timeout_ms)
            s.add(*cs)
            r = s.check()
            if r != z3.unknown:
                break
        dt = time.time() - t
        st = self.stats
        st.xqueries += 1
        st.xtime += dt
        st.maxq = max(st.maxq, dt)
        if r == z3.sat:
            st.xsat += 1
            return 'sat', s.model()
        if r == z3.unsat:
            st.xunsat += 1
            return 'unsat', None
        st.xunknown += 1
        return 'unknown', None

    def idx(self, what, lo, hi):
        """a fresh index in [lo, hi]"""
        self.fresh += 1
        v = z3.BitVec(f'{what}!{self.fresh}', 64)
        self.lia.index(v, lo, hi)
        return v

    def norm(self, c):
        if c is True or c is False:
            return c
        r = z3.simplify(c)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        self.lia.note(r, c)
        return r

    def mval(self, st, c):
        if st.model is None:
            return None
        v = st.model.eval(self.lia.tobool(c)[0], model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def decide(self, st, c):
        """True/False when the path condition settles c"""
        c = self.norm(c)
        if c is True or c is False:
            return c
        v = self.mval(st, c)
        if v is not False:
            if self.check(st.pc + [z3.Not(c)])[0] == 'unsat':
                return True
            if v is True:
                return None
        if self.check(st.pc + [c])[0] == 'unsat':
            return False
        return None

    def branch(self, st, c):
        """decide a condition; forks when both sides are feasible"""
        c = self.norm(c)
        if c is True or c is False:
            return c
        if st.dpos < len(st.decided):
            r = st.decided[st.dpos]
            st.dpos += 1
            return r
        nc = z3.Not(c)
        # asked before on this path
        ci, ni = c.get_id(), nc.get_id()
        for p in reversed(st.pc):
            i = p.get_id()
            if i == ci or i == ni:
                st.decided.append(i == ci)
                st.dpos += 1
                return i == ci
        mv = self.mval(st, c)
        tm = fm = st.model
        t = f = True
        if mv is True:
            r, m = self.check(st.pc + [nc])
            f = r != 'unsat'
            fm = m
        elif mv is False:
            r, m = self.check(st.pc + [c])
            t = r != 'unsat'
            tm = m
        else:
            r, m = self.check(st.pc + [c])
            t = r != 'unsat'
            tm = m
            if t:
                r, m = self.check(st.pc + [nc])
                f = r != 'unsat'
                fm = m
        if t and f:
            # the linear view knows little about the bits of lengths
            if self.prune and not self.lia.exact(c):
                if self.xcheck(st.pc + [nc], 300)[0] == 'unsat':
                    f = False
                elif self.xcheck(st.pc + [c], 300)[0] == 'unsat':
                    t = False
        if t and f:
            o = st.clone()
            o.pc.append(nc)
            o.model = fm
            o.decided.append(False)
            self.forked(o)
            st.decided.append(True)
            st.dpos += 1
            st.pc.append(c)
            st.model = tm
            return True
        r = t
        st.decided.append(r)
        st.dpos += 1
        st.model = tm if t else fm
        return r

    def forked(self, o):
        # the instruction runs again: what it chose so far comes from o.decided
        o.conc = {k: e for k, e in o.conc.items() if e[1] != o.steps}
        fr = o.frames[-1]
        if fr.forks is None:
            fr.forks = {}
        k = (fr.blk, fr.ip)
        fr.forks[k] = fr.forks.get(k, 0) + 1
        self.work.append(o)

    def note_fork(self, st):
        fr = st.frames[-1]
        if fr.forks is None:
            fr.forks = {}
        k = (fr.blk, fr.ip)
        n = fr.forks.get(k, 0) + 1
        fr.forks[k] = n
        if n > self.LOOP_FORKS:
            raise PathEnd('bound', f'loop bound {self.LOOP_FORKS} in {fr.fn["full"]}')

    def choose(self, st, n):
        if n == 1:
            return 0
        if st.dpos < len(st.decided):
            r = st.decided[st.dpos]
            st.dpos += 1
            return r
        for v in range(1, n):
            o = st.clone()
            o.decided.append(v)
            self.forked(o)
        st.decided.append(0)
        st.dpos += 1
        return 0

    def concretize(self, st, x, limit=16, what='value'):
        if isc(x):
            return x
        x = M.simp(x)
        if isc(x):
            return x
        k = M.key(x)
        if k in st.conc:
            return st.conc[k][0]
        if st.dpos < len(st.decided):
            v = st.decided[st.dpos]
            st.dpos += 1
            if v is None:
                raise PathEnd('bound', f'more than {limit} values for {what}')
            st.conc[k] = (v, st.steps)
            return v
        vals = []
        ex = []
        while len(vals) < limit:
            r, m = self.xcheck(st.pc + ex)
            if r != 'sat':
                if r == 'unknown':
                    vals.append((None, None, list(ex)))
                break
            v = m.eval(x, model_completion=True).as_long()
            vals.append((v, m, None))
            ex.append(x != v)
        else:
            r, m = self.xcheck(st.pc + ex)
            if r != 'unsat':
                vals.append((None, m, list(ex)))
        if not vals:
            raise PathEnd('infeasible')
        for v, m, e in vals[1:]:
            o = st.clone()
            if v is None:
                o.pc += e
            else:
                o.pc.append(x == v)
            o.model = None
            o.decided.append(v)
            self.forked(o)
        v, m, e = vals[0]
        if v is None:
            raise PathEnd('bound', f'solver gave no value for {what}')
        st.pc.append(x == v)
        st.model = None
        st.decided.append(v)
        st.dpos += 1
        st.conc[k] = (v, st.steps)
        return v

    def assume(self, st, c):
        c = self.norm(c)
        if c is True:
            return
        if c is False:
            raise PathEnd('assume')
        if self.mval(st, c) is not True:
            r, m = self.check(st.pc + [c])
            if r == 'unsat':
                raise PathEnd('assume')
            st.model = m
        st.pc.append(c)

    def addpc(self, st, c):
        """add a constraint known to be satisfiable (on fresh variables)"""
        c = self.norm(c)
        if c is True:
            return
        st.pc.append(c)
        if self.mval(st, c) is not True:
            st.model = None

    # ---------- types
    def width(self, t):
        u = self.p.u(t)
        if u['k'] == 'basic':
            w = WID.get(u['name'])
            if w is not None:
                return w
        raise Unsupported('width of ' + u['s'])

    def signed(self, t):
        u = self.p.u(t)
        return u['k'] == 'basic' and u['name'] in SGN

    def isint(self, t):
        u = self.p.u(t)
        return u['k'] == 'basic' and u['name'] in WID and u['name'] not in FLT and u['name'] not in ('bool', 'untyped bool')

    def isfloat(self, t):
        u = self.p.u(t)
        return u['k'] == 'basic' and u['name'] in FLT

    def isstr(self, t):
        u = self.p.u(t)
        return u['k'] == 'basic' and u['name'] in STRS

    def isbyte(self, t):
        u = self.p.u(t)
        return u['k'] == 'basic' and u['name'] in ('uint8', 'int8', 'byte')

    def zero(self, t):
        if t in self.zero_cache:
            return self.zero_cache[t]
        z = self._zero(t)
        self.zero_cache[t] = z
        return z

    def _zero(self, t):
        u = self.p.u(t)
        k = u['k']
        if k == 'basic':
            n = u['name']
            if n in STRS:
                return EMPTY
            if n in ('bool', 'untyped bool'):
                return False
            if n in WID:
                return 0
            return None
        if k == 'slice':
            return NILS
        if k == 'struct':
            return tuple(self.zero(f['t']) for f in (u['f'] or []))
        if k == 'array':
            if self.isbyte(u['e']):
                return ByteArr(M.ZERO, u['n'])
            return tuple(self.zero(u['e']) for _ in range(u['n']))
        if k == 'tuple':
            return tuple(self.zero(e) for e in (u['es'] or []))
        return None

    # ---------- heap
    def new(self, st, o):
        i = st.nid
        st.nid += 1
        if self.initing:
            o.own = o.own or 'global'
        st.heap[i] = o
        return i

    def new_of(self, st, t):
        u = self.p.u(t)
        if u['k'] == 'array' and self.isbyte(u['e']):
            return self.new(st, OBytes(M.ZERO, u['n']))
        return self.new(st, OCells(self.zero(t)))

    def sel(self, st, v, p):
        if isinstance(v, tuple):
            if not isc(p):
                p = self.concretize(st, p, 64, 'index')
            return v[p]
        if isinstance(v, ByteArr):
            return M.readp(v.mem, p)
        if isinstance(v, Slice):
            if p == 0:
                return None if v.obj is None else Ptr(v.obj, v.path + (v.off,))
            return (v.len, v.cap)[p - 1]
        if isinstance(v, Str):
            if p == 0:
                return None if v.obj is None else Ptr(v.obj, (v.off,))
            return v.len
        raise Unsupported(f'select {p} of {type(v).__name__}')

    def upd(self, st, v, path, nv):
        if not path:
            return nv
        p = path[0]
        if isinstance(v, tuple):
            if not isc(p):
                p = self.concretize(st, p, 64, 'index')
            return v[:p] + (self.upd(st, v[p], path[1:], nv),) + v[p + 1:]
        if isinstance(v, ByteArr):
            return ByteArr(M.store(v.mem, p, nv), v.n)
        if isinstance(v, (Slice, Str)):
            if isinstance(v, Str) or p == 0:
                if p == 0:
                    if nv is None or (isc(nv) and nv == 0):
                        o, pa, of = None, (), 0
                    elif isinstance(nv, Ptr):
                        o, pa, of = nv.obj, nv.path[:-1], nv.path[-1]
                    else:
                        raise Unsupported('store of computed address')
                    if isinstance(v, Str):
                        return Str(o, of, v.len)
                    return Slice(o, pa, of, v.len, v.cap)
                return Str(v.obj, v.off, nv)
            if p == 1:
                return Slice(v.obj, v.path, v.off, nv, v.cap)
            return Slice(v.obj, v.path, v.off, v.len, nv)
        raise Unsupported(f'update of {type(v).__name__}')

    def load(self, st, ptr, t):
        if ptr is None:
            raise GoPanic('nil pointer dereference')
        if not isinstance(ptr, Ptr):
            raise Unsupported('load through computed address')
        o = st.heap[ptr.obj]
        if isinstance(o, OBytes):
            u = self.p.u(t)
            if not ptr.path:
                if u['k'] == 'array' and self.isbyte(u['e']):
                    return ByteArr(o.mem, u['n'])
                idx = 0
            else:
                idx = ptr.path[0]
            if u['k'] == 'array' and self.isbyte(u['e']):
                return ByteArr(M.copy(M.ZERO, 0, o.mem, idx, u['n']), u['n'])
            if u['k'] == 'struct' and not u['f']:
                return ()
            w = self.width(t) // 8
            if w <= 1:
                return M.readp(o.mem, idx)
            if not self.branch(st, z3.Or(z3.ULT(bv(o.size), bv(w)), z3.ULT(bv(sub(o.size, w)), bv(idx))) if not (isc(o.size) and isc(idx)) else (idx + w > o.size)):
                bs = [M.readp(o.mem, add(idx, i)) for i in range(w)]
                if all(isc(b) for b in bs):
                    return int.from_bytes(bytes(bs), 'little')
                return z3.Concat(*[bv(b, 8) for b in reversed(bs)])
            raise GoPanic('memory: load outside object')
        if not isinstance(o, OCells):
            raise Unsupported('load from ' + type(o).__name__)
        v = o.val
        for p in ptr.path:
            v = self.sel(st, v, p)
        if isinstance(v, Slice) and self.isstr(t):
            return Str(v.obj, v.off, v.len) if not v.path else self.unsup('string over cells')
        if isinstance(v, Str) and self.p.u(t)['k'] == 'slice':
            return Slice(v.obj, (), v.off, v.len, v.len)
        return v

    def unsup(self, m):
        raise Unsupported(m)

    def store(self, st, ptr, v, t=None):
        if ptr is None:
            raise GoPanic('nil pointer dereference')
        if not isinstance(ptr, Ptr):
            raise Unsupported('store through computed address')
        o = st.heap[ptr.obj]
        self.wr(st, ptr.obj, o)
        if isinstance(o, OBytes):
            if isinstance(v, ByteArr):
                idx = ptr.path[0] if ptr.path else 0
                st.heap[ptr.obj] = OBytes(M.copy(o.mem, idx, v.mem, 0, v.n), o.size, o.own)
                return
            idx = ptr.path[0] if ptr.path else 0
            w = self.width(t) // 8 if t is not None else 1
            if w <= 1:
                st.heap[ptr.obj] = OBytes(M.store(o.mem, idx, v), o.size, o.own)
                return
            bad = (idx + w > o.size) if isc(o.size) and isc(idx) else z3.Or(z3.ULT(bv(o.size), bv(w)), z3.ULT(bv(sub(o.size, w)), bv(idx)))
            if self.branch(st, bad):
                raise GoPanic('memory: store outside object')
            m = o.mem
            for i in range(w):
                b = (v >> (8 * i)) & 255 if isc(v) else M.simp(z3.Extract(8 * i + 7, 8 * i, v))
                m = M.store(m, add(idx, i), b)
            st.heap[ptr.obj] = OBytes(m, o.size, o.own)
            return
        if not isinstance(o, OCells):
            raise Unsupported('store to ' + type(o).__name__)
        st.heap[ptr.obj] = OCells(self.upd(st, o.val, ptr.path, v), o.own)

    def wr(self, st, oid, o):
        """every write to a heap object goes through here"""
        if o.own and not self.initing:
            if o.own == 'ro':
                raise GoPanic('memory: write to read-only string data')
            if o.own == 'global' and not (self.cur_exempt(st)):
                fr = st.frames[-1]
                st.events.append(('gstore', fr.fn['full'], self.line(fr), str(oid)))

    def cur_exempt(self, st):
        return False

    def line(self, fr):
        try:
            return fr.fn['b'][fr.blk]['i'][min(fr.ip, len(fr.fn['b'][fr.blk]['i']) - 1)]['l']
        except Exception:
            return 0

    def smem(self, st, s):
        """(mem, off) of a byte slice or string"""
        if s.obj is None:
            return M.ZERO, 0
        o = st.heap[s.obj]
        if isinstance(o, OBytes) and not (isinstance(s, Slice) and s.path):
            return o.mem, s.off
        if isinstance(o, OCells) and isinstance(s, Slice):
            v = o.val
            for p in s.path:
                v = self.sel(st, v, p)
            if isinstance(v, ByteArr):
                return v.mem, s.off
        raise Unsupported('bytes of ' + type(o).__name__)

    def setmem(self, st, s, mem):
        o = st.heap[s.obj]
        self.wr(st, s.obj, o)
        if isinstance(o, OBytes):
            st.heap[s.obj] = OBytes(mem, o.size, o.own)
            return
        v = o.val
        for p in s.path:
            v = self.sel(st, v, p)
        st.heap[s.obj] = OCells(self.upd(st, o.val, s.path, ByteArr(mem, v.n)), o.own)

    def isbytemem(self, st, s):
        if s.obj is None:
            return True
        try:
            self.smem(st, s)
            return True
        except Unsupported:
            return False

    def mkstr(self, st, bs):
        bs = bytes(bs)
        if not bs:
            return EMPTY
        k = ('lit', bs)
        if k not in st.heap:
            st.heap[k] = OBytes(M.lit(bs), len(bs), 'ro')
        return Str(k, 0, len(bs))

    def strbytes(self, st, s):
        if not isc(s.len):
            return None
        if s.len == 0:
            return b''
        m, off = self.smem(st, s)
        out = []
        for i in range(s.len):
            b = M.read(m, add(off, i))
            if not isc(b):
                return None
            out.append(b)
        return bytes(out)

    # ---------- values
    def const(self, st, c):
        t = c['t']
        if c.get('z'):
            return self.zero(t)
        if 'b' in c:
            return c['b']
        if 'str' in c:
            return self.mkstr(st, c['str'])
        u = self.p.u(t)
        if 'fl' in c and self.isfloat(t):
            f = float.fromhex(c['fl'])
            if u['name'] == 'float32':
                return struct.unpack('<I', struct.pack('<f', f))[0]
            return struct.unpack('<Q', struct.pack('<d', f))[0]
        if 'i' in c:
            return int(c['i']) & ((1 << self.width(t)) - 1)
        raise Unsupported('constant')

    def val(self, st, fr, r):
        if isinstance(r, int):
            return fr.regs[r]
        if r is None:
            return None
        k = r['k']
        if k == 'c':
            v = r.get('_v')
            if v is None:
                v = self.const(st, r)
                if 'str' not in r:
                    r['_v'] = v
            return v
        if k == 'g':
            return self.gptr(st, r['g'])
        if k == 'f':
            return Fn(r['f'])
        raise Unsupported('value ' + k)

    def gptr(self, st, g):
        gid = ('g', g)
        if gid not in st.heap:
            gl = self.p.globals[g]
            if self.p.inits.get(gl['pkg'], -1) < 0:
                raise Unsupported('global of package without initialiser: ' + gl['n'])
            u = self.p.u(gl['t'])
            if u['k'] == 'array' and self.isbyte(u['e']):
                st.heap[gid] = OBytes(M.ZERO, u['n'], 'global')
            else:
                st.heap[gid] = OCells(self.zero(gl['t']), 'global')
        return Ptr(gid)

    # ---------- equality
    def equal(self, st, x, y, t):
        u = self.p.u(t)
        k = u['k']
        if k == 'basic':
            n = u['name']
            if n in STRS:
                return self.streq(st, x, y)
            if n in FLT:
                w = WID[n]
                s = z3.Float32() if w == 32 else z3.Float64()
                return self.norm(z3.fpEQ(z3.fpBVToFP(bv(x, w), s), z3.fpBVToFP(bv(y, w), s)))
            if n in ('bool', 'untyped bool'):
                if isinstance(x, bool) and isinstance(y, bool):
                    return x == y
                bx = z3.BoolVal(x) if isinstance(x, bool) else x
                by = z3.BoolVal(y) if isinstance(y, bool) else y
                return self.norm(bx == by)
            if n in WID:
                if isinstance(x, (Ptr, type(None))) or isinstance(y, (Ptr, type(None))):
                    return self.ptreq(x, y)
                if isc(x) and isc(y):
                    return x == y
                w = WID[n]
                return self.norm(bv(x, w) == bv(y, w))
            return self.ptreq(x, y)
        if k in ('ptr', 'chan'):
            return self.ptreq(x, y)
        if k in ('slice', 'map', 'func'):
            # only against nil
            def isnil(v):
                return v is None or (isinstance(v, Slice) and v.obj is None)
            if isnil(x) or isnil(y):
                return isnil(x) and isnil(y)
            raise Unsupported('comparison of ' + k)
        if k == 'iface':
            if x is None or y is None:
                return x is None and y is None
            if not isinstance(x, Iface) or not isinstance(y, Iface):
                raise Unsupported('mixed interface comparison')
            if x.t != y.t:
                return False
            if isinstance(x.t, tuple):
                return x.v == y.v
            ku = self.p.u(x.t)['k']
            if ku in ('slice', 'map', 'func'):
                raise GoPanic('comparing uncomparable type')
            return self.equal(st, x.v, y.v, x.t)
        if k == 'struct':
            r = True
            for i, f in enumerate(u['f'] or []):
                r = self.conj(r, self.equal(st, x[i], y[i], f['t']))
                if r is False:
                    return False
            return r
        if k == 'array':
            r = True
            for i in range(u['n']):
                a, b = self.sel(st, x, i), self.sel(st, y, i)
                r = self.conj(r, self.equal(st, a, b, u['e']))
                if r is False:
                    return False
            return r
        raise Unsupported('equality of ' + k)

    def conj(self, a, b):
        if a is True:
            return b
        if b is True:
            return a
        if a is False or b is False:
            return False
        return z3.And(a, b)

    def ptreq(self, x, y):
        if x is None or y is None:
            return x is None and y is None
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.obj != y.obj or len(x.path) != len(y.path):
                return False
            r = True
            for a, b in zip(x.path, y.path):
                r = self.conj(r, eq_(a, b))
            return r
        if isinstance(x, MapRef) and isinstance(y, MapRef):
            return x.obj == y.obj
        raise Unsupported('pointer comparison')

    def streq(self, st, x, y):
        if x.obj == y.obj and x.obj is not None:
            d, e = sub(x.off, y.off), sub(x.len, y.len)
            if isc(d) and d == 0 and isc(e) and e == 0:
                return True
        leq = self.norm(eq_(x.len, y.len))
        if leq is False:
            return False
        n = x.len if isc(x.len) else y.len
        mx, ox = self.smem(st, x)
        my, oy = self.smem(st, y)
        if isc(n) and n <= 256:
            r = leq
            for i in range(n):
                a, b = M.readp(mx, add(ox, i)), M.readp(my, add(oy, i))
                if isc(a) and isc(b):
                    if a != b:
                        return False
                    continue
                r = self.conj(r, self.norm(bv(a, 8) == bv(b, 8)))
                if r is False:
                    return False
            return self.norm(r)
        # unbounded: fork on "lengths differ", "same bytes", "differ at some index"
        if leq is not True:
            if not self.branch(st, leq):
                return False
        self.fresh += 1
        i = z3.BitVec(f'eqi!{self.fresh}', 64)
        self.lia.index(i, 0, self.ub(x.len))
        a, b = M.read(mx, add(ox, i)), M.read(my, add(oy, i))
        d = z3.And(z3.ULT(i, bv(x.len)), bv(a, 8) != bv(b, 8))
        if st.dpos < len(st.decided):
            r = st.decided[st.dpos]
            st.dpos += 1
            return r
        # texts taken to be the same here are the same at this index as well
        d = z3.And([d] + [self.same_at(t, i) for t in st.pools.get('same', ())])
        r, m = self.check(st.pc + [d])
        if r == 'unsat':
            st.decided.append(True)
            st.dpos += 1
            return True
        # may differ: one path where it does, one (over-approximate) where it does not
        o = st.clone()
        o.pc.append(d)
        o.model = m
        o.decided.append(False)
        o.pools['differ'] = o.pools.get('differ', ()) + (i,)
        self.forked(o)
        t = (mx, ox, my, oy, x.len)
        st.pools['same'] = st.pools.get('same', ()) + (t,)
        for q in tuple(range(8)) + st.pools.get('differ', ()):
            st.pc.append(self.same_at(t, q))
        r, m = self.check(st.pc)
        if r == 'unsat':
            raise PathEnd('infeasible')
        st.model = m
        st.decided.append(True)
        st.dpos += 1
        return True

    def same_at(self, t, q):
        mx, ox, my, oy, n = t
        a, b = M.read(mx, add(ox, q)), M.read(my, add(oy, q))
        return z3.Implies(z3.ULT(bv(q), bv(n)), bv(a, 8) == bv(b, 8))

    # ---------- integer arithmetic
    def sx(self, x, w):
        return x - (1 << w) if x >> (w - 1) else x

    def binint(self, st, op, x, y, xt, yt):
        w = self.width(xt)
        mask = (1 << w) - 1
        sg = self.signed(xt)
        if op in ('<<', '>>'):
            wy = self.width(yt)
            if self.signed(yt):
                neg = (self.sx(y, wy) < 0) if isc(y) else bv(y, wy) < 0
                if self.branch(st, neg):
                    raise GoPanic('negative shift amount')
            if isc(x) and isc(y):
                if op == '<<':
                    return (x << y) & mask if y < w else 0
                if sg:
                    return (self.sx(x, w) >> min(y, w)) & mask
                return x >> y if y < w else 0
            X = bv(x, w)
            if isc(y):
                Y = z3.BitVecVal(min(y, w), w)
            elif wy > w:
                Y = z3.If(z3.UGE(y, z3.BitVecVal(w, wy)), z3.BitVecVal(w, w), z3.Extract(w - 1, 0, y))
            elif wy < w:
                Y = z3.ZeroExt(w - wy, y)
            else:
                Y = y
            if op == '<<':
                return M.simp(X << Y)
            return M.simp(X >> Y if sg else z3.LShR(X, Y))
        if isc(x) and isc(y):
            if op == '+':
                return (x + y) & mask
            if op == '-':
                return (x - y) & mask
            if op == '*':
                return (x * y) & mask
            if op == '&':
                return x & y
            if op == '|':
                return x | y
            if op == '^':
                return x ^ y
            if op == '&^':
                return x & ~y & mask
            if op in ('/', '%'):
                if y == 0:
                    raise GoPanic('integer divide by zero')
                if sg:
                    a, b = self.sx(x, w), self.sx(y, w)
                    q = abs(a) // abs(b)
                    q = q if (a < 0) == (b < 0) else -q
                    return (q if op == '/' else a - q * b) & mask
                return x // y if op == '/' else x % y
            a, b = (self.sx(x, w), self.sx(y, w)) if sg else (x, y)
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        if isinstance(x, (Ptr, type(None))) or isinstance(y, (Ptr, type(None))):
            raise Unsupported('address arithmetic')
        X, Y = bv(x, w), bv(y, w)
        if op == '+':
            return M.simp(X + Y)
        if op == '-':
            return M.simp(X - Y)
        if op == '*':
            return M.simp(X * Y)
        if op == '&':
            return M.simp(X & Y)
        if op == '|':
            return M.simp(X | Y)
        if op == '^':
            return M.simp(X ^ Y)
        if op == '&^':
            return M.simp(X & ~Y)
        if op in ('/', '%'):
            if self.branch(st, Y == 0):
                raise GoPanic('integer divide by zero')
            if sg:
                return M.simp(X / Y if op == '/' else z3.SRem(X, Y))
            return M.simp(z3.UDiv(X, Y) if op == '/' else z3.URem(X, Y))
        if op == '==':
            return self.norm(X == Y)
        if op == '!=':
            return self.norm(X != Y)
        if sg:
            c = {'<': X < Y, '<=': X <= Y, '>': X > Y, '>=': X >= Y}[op]
        else:
            c = {'<': z3.ULT(X, Y), '<=': z3.ULE(X, Y), '>': z3.UGT(X, Y), '>=': z3.UGE(X, Y)}[op]
        return self.norm(c)

    def binfloat(self, st, op, x, y, t):
        w = self.width(t)
        s = z3.Float32() if w == 32 else z3.Float64()
        X, Y = z3.fpBVToFP(bv(x, w), s), z3.fpBVToFP(bv(y, w), s)
        cmp = {'<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ, '==': z3.fpEQ}
        if op in cmp:
            return self.norm(cmp[op](X, Y))
        if op == '!=':
            return self.norm(z3.Not(z3.fpEQ(X, Y)))
        rm = z3.RNE()
        f = {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op]
        r = f(rm, X, Y)
        self.fresh += 1
        out = z3.BitVec(f'fp!{self.fresh}', w)
        st.pc.append(z3.fpBVToFP(out, s) == r)
        st.model = None
        return out

    def fconv(self, st, x, wf, wt):
        """float width conversion as the hardware does it (NaN payload kept, quieted)"""
        X = bv(x, wf)
        if wf == wt:
            return x
        if wf == 32:
            nan = z3.fpIsNaN(z3.fpBVToFP(X, z3.Float32()))
            n64 = z3.Concat(z3.Extract(31, 31, X), z3.BitVecVal(0x7ff, 11), z3.BitVecVal(1, 1), z3.Extract(21, 0, X), z3.BitVecVal(0, 29))
            r = z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(X, z3.Float32()), z3.Float64()))
            return M.simp(z3.If(nan, n64, r))
        nan = z3.fpIsNaN(z3.fpBVToFP(X, z3.Float64()))
        n32 = z3.Concat(z3.Extract(63, 63, X), z3.BitVecVal(0xff, 8), z3.BitVecVal(1, 1), z3.Extract(50, 29, X))
        r = z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(X, z3.Float64()), z3.Float32()))
        return M.simp(z3.If(nan, n32, r))

    def convert(self, st, x, xt, t):
        ux, ut = self.p.u(xt), self.p.u(t)
        if ux['k'] == 'basic' and ut['k'] == 'basic':
            nx, nt = ux['name'], ut['name']
            if nx in STRS and nt in STRS:
                return x
            if nt in STRS:
                if not isc(x) and self.branch(st, z3.ULT(x, 0x80)):
                    c = x if self.width(xt) == 8 else M.simp(z3.Extract(7, 0, x))
                    if isc(c):
                        return self.mkstr(st, bytes([c]))
                    return Str(self.new(st, OBytes(M.store(M.ZERO, 0, c), 1, '')), 0, 1)
                c = self.concretize(st, x, 300, 'rune')
                c = self.sx(c, self.width(xt)) if self.signed(xt) else c
                if c < 0 or c > 0x10ffff or 0xd800 <= c < 0xe000:
                    c = 0xfffd
                return self.mkstr(st, chr(c).encode())
            if nx in FLT and nt in FLT:
                return self.fconv(st, x, WID[nx], WID[nt])
            if nx in FLT or nt in FLT:
                return self.ficonv(st, x, xt, t)
            if nt == 'unsafe.Pointer' or nx == 'unsafe.Pointer' or nt == 'Pointer' or nx == 'Pointer':
                return x
            wf, wt = self.width(xt), self.width(t)
            if isc(x):
                if wt > wf and self.signed(xt):
                    return self.sx(x, wf) & ((1 << wt) - 1)
                return x & ((1 << wt) - 1)
            if isinstance(x, (Ptr, type(None))):
                return x
            if wt == wf:
                return x
            if wt < wf:
                return M.simp(z3.Extract(wt - 1, 0, x))
            return M.simp(z3.SignExt(wt - wf, x) if self.signed(xt) else z3.ZeroExt(wt - wf, x))
        if ux['k'] == 'basic' and ux['name'] in STRS and ut['k'] == 'slice':
            if self.isbyte(ut['e']):
                m, off = self.smem(st, x)
                cap = self.newcap(st, 0, x.len)
                o = self.new(st, OBytes(M.copy(M.ZERO, 0, m, off, x.len), cap))
                return Slice(o, (), 0, x.len, cap)
            rs, i = [], 0
            while True:
                r = self.rune_at(st, x, i)
                if r is None:
                    break
                if i > 256:
                    raise PathEnd('bound', 'more than 256 bytes taken apart into runes')
                rs.append(r[0])
                i += r[1]
            o = self.new(st, OCells(tuple(rs)))
            return Slice(o, (), 0, len(rs), len(rs))
        if ux['k'] == 'slice' and ut['k'] == 'basic' and ut['name'] in STRS:
            if self.isbyte(ux['e']):
                if isc(x.len) and x.len == 0:
                    return EMPTY
                m, off = self.smem(st, x)
                o = self.new(st, OBytes(M.copy(M.ZERO, 0, m, off, x.len), x.len, ''))
                return Str(o, 0, x.len)
            n = self.concretize(st, x.len, 64, 'length')
            out = []
            for i in range(n):
                c = self.load(st, Ptr(x.obj, x.path + (add(x.off, i),)), ux['e'])
                if not isc(c) and self.branch(st, z3.ULT(c, 0x80)):
                    out.append(M.simp(z3.Extract(7, 0, c)))
                    continue
                c = self.sx(self.concretize(st, c, 300, 'rune'), 32)
                if c < 0 or c > 0x10ffff or 0xd800 <= c < 0xe000:
                    c = 0xfffd
                out += chr(c).encode()
            if all(isc(b) for b in out):
                return self.mkstr(st, bytes(out))
            m = M.ZERO
            for i, b in enumerate(out):
                m = M.store(m, i, b)
            return Str(self.new(st, OBytes(m, len(out), '')), 0, len(out))
        return x  # pointer conversions

    def ficonv(self, st, x, xt, t):
        wf, wt = self.width(xt), self.width(t)
        if self.isfloat(t):
            s = z3.Float32() if wt == 32 else z3.Float64()
            r = z3.fpSignedToFP(z3.RNE(), bv(x, wf), s) if self.signed(xt) else z3.fpUnsignedToFP(z3.RNE(), bv(x, wf), s)
            return M.simp(z3.fpToIEEEBV(r))
        s = z3.Float32() if wf == 32 else z3.Float64()
        f = z3.fpBVToFP(bv(x, wf), s)
        r = z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(wt)) if self.signed(t) else z3.fpToUBV(z3.RTZ(), f, z3.BitVecSort(wt))
        return M.simp(r)

    def concbytes(self, st, s):
        n = self.concretize(st, s.len, 64, 'string length')
        m, off = self.smem(st, s)
        return bytes(self.concretize(st, M.readp(m, add(off, i)), 300, 'string byte') for i in range(n))

    @staticmethod
    def decode_runes(bs):
        """[(index, rune, width)] the way Go ranges over a string"""
        out = []
        i = 0
        while i < len(bs):
            b = bs[i]
            if b < 0x80:
                out.append((i, b, 1))
                i += 1
                continue
            for w in (2, 3, 4):
                try:
                    c = bs[i:i + w].decode('utf-8')
                except UnicodeDecodeError:
                    continue
                if len(c) == 1:
                    out.append((i, ord(c), w))
                    i += w
                    break
            else:
                out.append((i, 0xfffd, 1))
                i += 1
        return out

    # ---------- slices
    def ub(self, x):
        return x if isc(x) else self.lia.unsigned(x)[2]

    def newcap(self, st, oldcap, newlen, esz=1):
        """capacity the runtime may choose for newlen elements"""
        if esz != 1:
            return newlen
        self.fresh += 1
        n = f'cap!{self.fresh}'
        c = z3.BitVec(n, 64)
        st.caps.append((c, oldcap, newlen))
        self.lia.index(c, 0, min(M64, 2 * self.ub(newlen) + 2 * self.ub(oldcap) + 16384))
        cs = [z3.UGE(c, bv(newlen)), z3.ULE(c, bv(add(add(newlen, newlen), add(add(oldcap, oldcap), 16384))))]
        cs.append(z3.Or(bv(newlen) == 0, z3.UGE(c, 8)))
        cs.append(z3.If(z3.ULT(bv(oldcap), 256), z3.UGE(c, bv(oldcap) * 2), z3.UGE(c, bv(oldcap) + z3.LShR(bv(oldcap), 2))))
        for x in cs:
            x = self.norm(x)
            if x is not True:
                st.pc.append(x)
        st.model = None
        return c

    def append(self, st, s, t, et):
        """append(s, t...)"""
        n = t.len
        if isc(n) and n == 0:
            return s
        if not self.isbyte(et):
            ls = self.concretize(st, s.len, 64, 'slice length')
            lt = self.concretize(st, n, 64, 'slice length')
            cp = self.concretize(st, s.cap, 64, 'slice capacity')
            if lt == 0:
                return s
            vals = [self.load(st, Ptr(t.obj, t.path + (add(t.off, i),)), et) for i in range(lt)]
            if ls + lt <= cp:
                for i, v in enumerate(vals):
                    self.store(st, Ptr(s.obj, s.path + (add(s.off, ls + i),)), v, et)
                return Slice(s.obj, s.path, s.off, ls + lt, cp)
            old = [self.load(st, Ptr(s.obj, s.path + (add(s.off, i),)), et) for i in range(ls)]
            nc = max(ls + lt, 2 * cp)
            o = self.new(st, OCells(tuple(old + vals + [self.zero(et)] * (nc - ls - lt))))
            return Slice(o, (), 0, ls + lt, nc)
        nl = add(s.len, n)
        if not isc(n):
            if self.branch(st, bv(n) == 0):
                return s
        fits = (nl <= s.cap) if isc(nl) and isc(s.cap) else z3.ULE(bv(nl), bv(s.cap))
        fit = self.branch(st, fits)
        tm, to = self.smem(st, t)
        sm, so = self.smem(st, s)
        if fit:
            self.setmem(st, s, M.copy(sm, add(s.off, s.len), tm, to, n))
            return Slice(s.obj, s.path, s.off, nl, s.cap)
        cap = self.newcap(st, s.cap, nl)
        m = M.copy(M.ZERO, 0, sm, so, s.len)
        m = M.copy(m, s.len, tm, to, n)
        o = self.new(st, OBytes(m, cap))
        return Slice(o, (), 0, nl, cap)

    def copyb(self, st, d, s, et):
        if d.obj is None or s.obj is None:
            return 0
        if not self.isbyte(et):
            n = min(self.concretize(st, d.len, 64, 'slice length'), self.concretize(st, s.len, 64, 'slice length'))
            vals = [self.load(st, Ptr(s.obj, s.path + (add(s.off, i),)), et) for i in range(n)]
            for i, v in enumerate(vals):
                self.store(st, Ptr(d.obj, d.path + (add(d.off, i),)), v, et)
            return n
        if isc(d.len) and isc(s.len):
            n = min(d.len, s.len)
        else:
            n = s.len if self.branch(st, z3.ULE(bv(s.len), bv(d.len))) else d.len
        if isc(n) and n == 0:
            return 0
        sm, so = self.smem(st, s)
        dm, do = self.smem(st, d)
        self.setmem(st, d, M.copy(dm, do, sm, so, n))
        return n

    def mkslice(self, st, t, n, nt, c, ct):
        et = self.p.u(t)['e']
        n, c = self.i64(n, nt), self.i64(c, ct)
        lim = 1 << 47
        bad = (n > lim) if isc(n) else z3.UGT(bv(n), bv(lim))
        if self.branch(st, bad):
            raise GoPanic('makeslice: len out of range')
        if c is not n:
            bad = (c > lim or c < n) if isc(c) and isc(n) else z3.Or(z3.UGT(bv(c), bv(lim)), z3.ULT(bv(c), bv(n)))
            if self.branch(st, bad):
                raise GoPanic('makeslice: cap out of range')
        self.alloc_hook(st, c, self.leastsize(et))
        if self.isbyte(et):
            o = self.new(st, OBytes(M.ZERO, c))
            return Slice(o, (), 0, n, c)
        n = self.concretize(st, n, 8, 'make length')
        c = self.concretize(st, c, 8, 'make capacity')
        if c > 4096:
            raise PathEnd('bound', 'make of %d elements' % c)
        o = self.new(st, OCells(tuple(self.zero(et) for _ in range(c))))
        return Slice(o, (), 0, n, c)

    def alloc_hook(self, st, n, size):
        """memory for n elements: within the limit the harness set, if any"""
        lim = st.pools.get('alloc')
        if lim is None:
            return
        k = len(self.violations)
        try:
            self.assert_(st, n * size <= lim if isc(n) and isc(lim) else z3.ULE(bv(n) * size, bv(lim)), 'memory use is bounded by the input')
        finally:
            for v in self.violations[k:]:
                v['kind'] = 'alloc'

    def leastsize(self, t):
        """a lower bound of the memory one t takes"""
        u = self.p.u(t)
        if self.isint(t):
            return max(1, self.width(t) // 8)
        return {'string': 16, 'slice': 24, 'ptr': 8, 'map': 8, 'iface': 16}.get(u['k'], 1)

    def i64(self, x, t):
        if isc(x):
            w = self.width(t)
            return (self.sx(x, w) & M64) if self.signed(t) else x
        w = x.size()
        if w == 64:
            return x
        return M.simp(z3.SignExt(64 - w, x) if self.signed(t) else z3.ZeroExt(64 - w, x))

    def bcheck(self, st, i, n, what):
        """panics unless i < n (unsigned)"""
        c = ult_(i, n)
        if not self.branch(st, c):
            raise GoPanic(what)

    def slice_op(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        u = self.p.u(ins['xt'])
        lo = 0 if ins['lo'] is None else self.i64(self.val(st, fr, ins['lo']), ins['lot'])
        hi = None if ins['hi'] is None else self.i64(self.val(st, fr, ins['hi']), ins['hit'])
        mx = None if ins['mx'] is None else self.i64(self.val(st, fr, ins['mx']), ins['mxt'])
        def le(a, b):
            if isc(a) and isc(b):
                return a <= b
            return z3.ULE(bv(a), bv(b))
        if u['k'] == 'basic':
            n = x.len
            if hi is None:
                hi = n
            elif not self.branch(st, le(hi, n)):
                raise GoPanic('slice bounds out of range')
            if not self.branch(st, le(lo, hi)):
                raise GoPanic('slice bounds out of range')
            return Str(x.obj, add(x.off, lo), sub(hi, lo)) if x.obj is not None else EMPTY
        if u['k'] == 'ptr':
            if x is None:
                raise GoPanic('nil pointer dereference')
            au = self.p.u(u['e'])
            base = Slice(x.obj, x.path, 0, au['n'], au['n'])
            o = st.heap[x.obj]
            if isinstance(o, OBytes) and x.path:
                base = Slice(x.obj, (), x.path[0], au['n'], au['n'])
        else:
            base = x
        cap = base.cap
        if mx is not None:
            if not self.branch(st, le(mx, cap)):
                raise GoPanic('slice bounds out of range')
            cap = mx
        if hi is None:
            hi = base.len
            if mx is not None and not self.branch(st, le(hi, cap)):
                raise GoPanic('slice bounds out of range')
        elif not self.branch(st, le(hi, cap)):
            raise GoPanic('slice bounds out of range')
        if not self.branch(st, le(lo, hi)):
            raise GoPanic('slice bounds out of range')
        if base.obj is None:
            return NILS
        return Slice(base.obj, base.path, add(base.off, lo), sub(hi, lo), sub(cap, lo))

    # ---------- running
    def initial(self):
        st = State()
        st.frames, st.heap, st.nid, st.pc, st.model = [], {}, 1, [], None
        st.inputs, st.names, st.pools, st.events = [], {}, {}, []
        st.decided, st.dpos, st.conc, st.steps, st.labels, st.caps = [], 0, {}, 0, set(), []
        st.trace = st.dead = None
        return st

    def push(self, st, fn, args, binds, ret, mode):
        if len(st.frames) > 400:
            raise GoPanic('stack overflow')
        fr = Frame()
        fr.fn, fr.blk, fr.ip, fr.prev = fn, 0, 0, -1
        fr.regs = [None] * fn['nreg']
        for i, a in enumerate(args):
            fr.regs[i] = a
        for i, b in enumerate(binds):
            fr.regs[len(args) + i] = b
        fr.defers, fr.ret, fr.mode, fr.panic, fr.recovering, fr.forks, fr.after = [], ret, mode, None, False, None, None
        st.frames.append(fr)
        self.encoded[fn['full']] = self.encoded.get(fn['full'], 0) + 1

    def own_pkg(self, pkg):
        return '.' in pkg.split('/')[0] or pkg.startswith('verif')

    def run_inits(self, st):
        """package initialisers; those of standard packages that cannot be executed leave
        the package's variables unavailable (reading one ends the path as unsupported)"""
        self.initing = True
        order = sorted(self.p.inits.items(), key=lambda kv: self.own_pkg(kv[0]))
        for pkg, f in order:
            if f < 0:
                continue
            keep = st.clone()
            self.push(st, self.p.fns[f], [], [], None, 'top')
            out = self.run_path(st)
            if out[0] != 'ret' or self.work:
                if self.own_pkg(pkg):
                    raise Unsupported(f'init of {pkg}: {out}')
                self.p.inits[pkg] = -1
                self.work = []
                for a in State.__slots__:
                    setattr(st, a, getattr(keep, a))
        self.initing = False
        for o in st.heap.values():
            if not o.own:
                o.own = 'global'
        st.decided, st.dpos, st.steps = [], 0, 0
        self.encoded.clear()

    def explore(self, base, fid, deadline=None, max_paths=20000):
        """run one entry point; yields (outcome, state) for every path"""
        self.deadline = deadline
        st = base.clone()
        self.push(st, self.p.fns[fid], [], [], None, 'top')
        self.work = [st]
        n = 0
        while self.work:
            if deadline and time.time() > deadline:
                yield ('timeout', f'{len(self.work)} paths left'), None
                return
            n += 1
            if n > max_paths:
                yield ('timeout', f'path limit, {len(self.work)} left'), None
                return
            s = self.work.pop()
            out = self.run_path(s)
            yield out, s

    def run_path(self, st):
        try:
            while True:
                if not st.frames:
                    return ('ret', None)
                fr = st.frames[-1]
                st.steps += 1
                self.stats.steps += 1
                if st.steps > self.STEP_LIMIT:
                    return ('bound', 'step limit')
                if (st.steps & 1023) == 0 and self.deadline and time.time() > self.deadline:
                    return ('bound', 'time limit')
                st.dpos = 0
                ins = fr.fn['b'][fr.blk]['i'][fr.ip]
                npc = len(st.pc)
                M.DECIDE = lambda c: self.decide(st, c)
                try:
                    self.step(st, fr, ins)
                except GoPanic as e:
                    if st.decided:
                        st.decided = []
                    r = self.do_panic(st, e)
                    if r is not None:
                        return r
                    continue
                if st.decided:
                    if len(st.pc) != npc and st.frames and st.frames[-1] is fr:
                        pass
                    st.decided = []
        except PathEnd as e:
            return (e.why, e.msg)
        except Unsupported as e:
            fr = st.frames[-1] if st.frames else None
            where = f' in {fr.fn["full"]}:{self.line(fr)}' if fr else ''
            return ('unsupported', str(e) + where)

    def do_panic(self, st, e):
        fr = st.frames[-1]
        rec = {'what': e.what, 'val': e.val, 'recovered': False, 'fn': fr.fn['full'], 'line': self.line(fr), 'pos': fr.fn.get('pos')}
        fr.panic = rec
        return self.unwind(st)

    def unwind(self, st):
        while st.frames:
            fr = st.frames[-1]
            if fr.defers:
                d = fr.defers.pop()
                try:
                    if self.invoke(st, fr, d, None, 'unwind'):
                        return None
                except GoPanic as e:
                    fr.panic = {'what': e.what, 'val': e.val, 'recovered': False, 'fn': fr.fn['full'], 'line': 0, 'pos': None}
                continue
            rec = fr.panic
            if rec is None:
                # recovered and all deferred calls done
                self.resume(st, fr)
                return None
            st.frames.pop()
            if not st.frames:
                return ('panic', rec)
            up = st.frames[-1]
            up.panic = rec
        return ('ret', None)

    def resume(self, st, fr):
        fr.recovering = False
        if fr.fn.get('recover') is not None:
            fr.prev, fr.blk, fr.ip = fr.blk, fr.fn['recover'], 0
        else:
            self.do_return(st, fr, tuple(self.zero(t) for t in fr.fn['rt']))

    def do_return(self, st, fr, vals):
        st.frames.pop()
        v = vals[0] if len(vals) == 1 else vals
        if not st.frames:
            return
        up = st.frames[-1]
        if fr.mode == 'call':
            if fr.ret is not None:
                up.regs[fr.ret] = v
            up.ip += 1
        elif fr.mode == 'defer':
            pass  # caller re-executes rundefers
        elif fr.mode == 'unwind':
            if up.panic is not None and up.panic['recovered']:
                up.panic = None
            r = self.unwind(st)
            if r is not None:
                raise PathEnd(*r)
        elif callable(fr.mode):
            fr.mode(self, st, up, v)

    def goto(self, fr, i):
        b = fr.fn['b'][fr.blk]
        nb = b['s'][i]
        fr.prev, fr.blk, fr.ip = fr.blk, nb, 0

    def step(self, st, fr, ins):
        o = ins['o']
        m = getattr(self, 'i_' + o, None)
        if m is None:
            raise Unsupported('instruction ' + o + ' ' + ins.get('w', ''))
        m(st, fr, ins)

    def setr(self, fr, ins, v):
        fr.regs[ins['r']] = v
        fr.ip += 1

    def i_alloc(self, st, fr, ins):
        self.setr(fr, ins, Ptr(self.new_of(st, ins['e'])))

    def i_bin(self, st, fr, ins):
        x, y, op, xt = self.val(st, fr, ins['x']), self.val(st, fr, ins['y']), ins['op'], ins['xt']
        if self.isint(xt) and not (op in ('==', '!=') and not (isc(x) or z3.is_bv(x))):
            v = self.binint(st, op, x, y, xt, ins['yt'])
        elif op == '==' or op == '!=':
            if self.isfloat(xt):
                v = self.binfloat(st, op, x, y, xt)
            else:
                # comparing an interface with a concrete value converts first in SSA
                v = self.equal(st, x, y, xt)
                if op == '!=':
                    v = (not v) if isinstance(v, bool) else self.norm(z3.Not(v))
        elif self.isfloat(xt):
            v = self.binfloat(st, op, x, y, xt)
        elif self.isstr(xt):
            if op == '+':
                v = self.concat(st, x, y)
            else:
                v = self.strcmp(st, op, x, y)
        elif self.p.u(xt)['k'] == 'basic' and self.p.u(xt)['name'] == 'bool':
            bx = z3.BoolVal(x) if isinstance(x, bool) else x
            by = z3.BoolVal(y) if isinstance(y, bool) else y
            v = self.norm({'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](bx, by))
        else:
            raise Unsupported('binary ' + op)
        self.setr(fr, ins, v)

    def concat(self, st, x, y):
        if x.obj is None or (isc(x.len) and x.len == 0):
            return y
        if y.obj is None or (isc(y.len) and y.len == 0):
            return x
        mx, ox = self.smem(st, x)
        my, oy = self.smem(st, y)
        m = M.copy(M.ZERO, 0, mx, ox, x.len)
        m = M.copy(m, x.len, my, oy, y.len)
        n = add(x.len, y.len)
        return Str(self.new(st, OBytes(m, n)), 0, n)

    def strcmp(self, st, op, x, y):
        a, b = self.strbytes(st, x), self.strbytes(st, y)
        if a is None:
            a = self.concbytes(st, x)
        if b is None:
            b = self.concbytes(st, y)
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]

    def i_un(self, st, fr, ins):
        op = ins['op']
        x = self.val(st, fr, ins['x'])
        if op == '*':
            v = self.load(st, x, ins['t'])
        elif op == '!':
            v = (not x) if isinstance(x, bool) else self.norm(z3.Not(x))
        elif op == '-':
            w = self.width(ins['xt'])
            if self.isfloat(ins['xt']):
                v = (x ^ (1 << (w - 1))) if isc(x) else M.simp(x ^ z3.BitVecVal(1 << (w - 1), w))
            else:
                v = (-x) & ((1 << w) - 1) if isc(x) else M.simp(-x)
        elif op == '^':
            w = self.width(ins['xt'])
            v = (~x) & ((1 << w) - 1) if isc(x) else M.simp(~x)
        else:
            raise Unsupported('unary ' + op)
        self.setr(fr, ins, v)

    def i_chiface(self, st, fr, ins):
        self.setr(fr, ins, self.val(st, fr, ins['x']))

    i_chtype = i_chiface

    def i_conv(self, st, fr, ins):
        self.setr(fr, ins, self.convert(st, self.val(st, fr, ins['x']), ins['xt'], ins['t']))

    def i_extract(self, st, fr, ins):
        self.setr(fr, ins, self.val(st, fr, ins['x'])[ins['i']])

    def i_field(self, st, fr, ins):
        self.setr(fr, ins, self.val(st, fr, ins['x'])[ins['i']])

    def i_fieldaddr(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        if x is None:
            raise GoPanic('nil pointer dereference')
        if not isinstance(x, Ptr):
            raise Unsupported('field of computed address')
        self.setr(fr, ins, Ptr(x.obj, x.path + (ins['i'],)))

    def i_index(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        i = self.i64(self.val(st, fr, ins['i']), ins['it'])
        self.setr(fr, ins, self.index(st, x, i))

    def index(self, st, x, i):
        if isinstance(x, Str):
            self.bcheck(st, i, x.len, 'index out of range')
            m, off = self.smem(st, x)
            return M.readp(m, add(off, i))
        if isinstance(x, ByteArr):
            self.bcheck(st, i, x.n, 'index out of range')
            return M.readp(x.mem, i)
        if isinstance(x, tuple):
            self.bcheck(st, i, len(x), 'index out of range')
            return x[self.concretize(st, i, 64, 'index')]
        raise Unsupported('index')

    def i_indexaddr(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        i = self.i64(self.val(st, fr, ins['i']), ins['it'])
        if isinstance(x, Slice):
            self.bcheck(st, i, x.len, 'index out of range')
            o = st.heap[x.obj]
            if isinstance(o, OCells) and not isc(i):
                v = o.val
                for p in x.path:
                    v = self.sel(st, v, p)
                if isinstance(v, tuple):
                    i = self.concretize(st, i, 64, 'index')
            v = Ptr(x.obj, x.path + (add(x.off, i),))
        elif isinstance(x, Ptr):
            u = self.p.u(self.p.u(ins['xt'])['e'])
            self.bcheck(st, i, u['n'], 'index out of range')
            o = st.heap[x.obj]
            if isinstance(o, OBytes):
                v = Ptr(x.obj, (add(x.path[0] if x.path else 0, i),))
            else:
                v = Ptr(x.obj, x.path + (i,))
        elif x is None:
            raise GoPanic('nil pointer dereference')
        else:
            raise Unsupported('indexaddr')
        self.setr(fr, ins, v)

    def i_if(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        if not isinstance(x, bool):
            x = self.norm(x)
        if not isinstance(x, bool):
            self.note_fork(st)
            x = self.branch(st, x)
        self.goto(fr, 0 if x else 1)

    def i_jump(self, st, fr, ins):
        self.goto(fr, 0)

    def i_phi(self, st, fr, ins):
        blk = fr.fn['b'][fr.blk]
        pi = blk['p'].index(fr.prev)
        vals = []
        j = fr.ip
        while j < len(blk['i']) and blk['i'][j]['o'] == 'phi':
            vals.append((blk['i'][j]['r'], self.val(st, fr, blk['i'][j]['es'][pi])))
            j += 1
        for r, v in vals:
            fr.regs[r] = v
        fr.ip = j

    def i_store(self, st, fr, ins):
        self.store(st, self.val(st, fr, ins['a']), self.val(st, fr, ins['v']), ins['vt'])
        fr.ip += 1

    def i_slice(self, st, fr, ins):
        self.setr(fr, ins, self.slice_op(st, fr, ins))

    def i_s2ap(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        n = self.p.u(self.p.u(ins['t'])['e'])['n']
        if not self.branch(st, (x.len >= n) if isc(x.len) else z3.UGE(bv(x.len), bv(n))):
            raise GoPanic('slice to array: length too short')
        if x.obj is None:
            self.setr(fr, ins, None)
        else:
            self.setr(fr, ins, Ptr(x.obj, x.path + (x.off,)))

    def i_mkslice(self, st, fr, ins):
        n, c = self.val(st, fr, ins['n']), self.val(st, fr, ins['cp'])
        self.setr(fr, ins, self.mkslice(st, ins['t'], n, ins['nt'], c, ins['ct']))

    def i_closure(self, st, fr, ins):
        self.setr(fr, ins, Fn(ins['f'], tuple(self.val(st, fr, b) for b in ins['bs'])))

    def i_mkiface(self, st, fr, ins):
        self.setr(fr, ins, Iface(ins['xt'], self.val(st, fr, ins['x'])))

    def implements(self, t, it):
        if isinstance(t, tuple):
            return t[0] == 'opaque' and all(m == 'Error' for m in self.p.u(it)['m'])
        tab = self.p.mtab.get(str(t), {})
        return all(m in tab for m in self.p.u(it)['m'] or [])

    def i_tassert(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        at = ins['at']
        isif = self.p.u(at)['k'] == 'iface'
        if x is None:
            ok = False
        elif isif:
            ok = self.implements(x.t, at)
        else:
            ok = x.t == at
        if ok:
            v = x if isif else x.v
        else:
            v = self.zero(at)
        if ins['ok']:
            self.setr(fr, ins, (v, ok))
        elif not ok:
            raise GoPanic('interface conversion')
        else:
            self.setr(fr, ins, v)

    # maps
    def i_mkmap(self, st, fr, ins):
        if ins.get('n') is not None and st.pools.get('alloc') is not None:
            n = self.i64(self.val(st, fr, ins['n']), ins['nt'])
            m = self.p.u(ins['t'])
            # a negative hint is ignored
            big = n < 1 << 47 if isc(n) else self.branch(st, z3.ULT(bv(n), bv(1 << 47)))
            if big:
                self.alloc_hook(st, n, self.leastsize(m['key']) + self.leastsize(m['e']))
        self.setr(fr, ins, MapRef(self.new(st, OMap(()))))

    def mapfind(self, st, m, k, kt):
        o = st.heap[m.obj]
        for i, (kk, vv) in enumerate(o.ents):
            if self.branch(st, self.equal(st, kk, k, kt)):
                return i
        return -1

    def i_mapupd(self, st, fr, ins):
        m = self.val(st, fr, ins['m'])
        k, v = self.val(st, fr, ins['key']), self.val(st, fr, ins['v'])
        if m is None:
            raise GoPanic('assignment to entry in nil map')
        i = self.mapfind(st, m, k, self.p.u(ins['mt'])['key'])
        o = st.heap[m.obj]
        self.wr(st, m.obj, o)
        if i >= 0:
            ents = o.ents[:i] + ((o.ents[i][0], v),) + o.ents[i + 1:]
        else:
            ents = o.ents + ((k, v),)
        st.heap[m.obj] = OMap(ents, o.own)
        fr.ip += 1

    def i_lookup(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        k = self.val(st, fr, ins['i'])
        if isinstance(x, Str):
            self.setr(fr, ins, self.index(st, x, self.i64(k, ins['it'])))
            return
        mt = self.p.u(ins['xt'])
        i = -1 if x is None else self.mapfind(st, x, k, mt['key'])
        v = self.zero(mt['e']) if i < 0 else st.heap[x.obj].ents[i][1]
        self.setr(fr, ins, (v, i >= 0) if ins['ok'] else v)

    def i_range(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        if isinstance(x, Str):
            bs = self.strbytes(st, x)
            if bs is None:
                self.setr(fr, ins, Ptr(self.new(st, OIter(x, 0))))
                return
            items = [(i, r) for i, r, _ in self.decode_runes(bs)]
        elif x is None:
            items = []
        else:
            rest = list(st.heap[x.obj].ents)
            items = []
            while rest:
                i = self.choose(st, len(rest)) if len(rest) <= 3 else 0
                items.append(rest.pop(i))
        self.setr(fr, ins, Ptr(self.new(st, OIter(tuple(items), 0))))

    def i_next(self, st, fr, ins):
        it = self.val(st, fr, ins['x'])
        o = st.heap[it.obj]
        tt = self.p.u(ins['t'])['es']
        if isinstance(o.items, Str):
            self.next_rune(st, fr, ins, it, o.items, o.pos)
            return
        if o.pos >= len(o.items):
            def z(t):
                try:
                    return self.zero(t)
                except Exception:
                    return None
            self.setr(fr, ins, (False, z(tt[1]), z(tt[2])))
            return
        k, v = o.items[o.pos]
        st.heap[it.obj] = OIter(o.items, o.pos + 1)
        self.setr(fr, ins, (True, k, v))

    def next_rune(self, st, fr, ins, it, s, i):
        x = self.rune_at(st, s, i)
        if x is None:
            self.setr(fr, ins, (False, 0, 0))
            return
        st.heap[it.obj] = OIter(s, i + x[1])
        self.setr(fr, ins, (True, i, x[0]))

    def rune_at(self, st, s, i):
        """(rune, width) at byte i of a string, None at its end"""
        if self.branch(st, i >= s.len if isc(s.len) else z3.UGE(bv(i), bv(s.len))):
            return None
        m, off = self.smem(st, s)
        c = M.readp(m, add(off, i))
        if self.branch(st, c < 0x80 if isc(c) else z3.ULT(c, 0x80)):
            r, w = c if isc(c) else M.simp(z3.ZeroExt(24, c)), 1
        else:
            n = 1
            while n < 4 and self.branch(st, i + n < s.len if isc(s.len) else z3.ULT(bv(i + n), bv(s.len))):
                n += 1
            bs = bytes(self.concretize(st, M.readp(m, add(off, i + j)), 300, 'string byte') for j in range(n))
            _, r, w = self.decode_runes(bs)[0]
        return r, w

    # control
    def i_panic(self, st, fr, ins):
        v = self.val(st, fr, ins['x'])
        raise GoPanic('panic: ' + self.describe(st, v), v)

    def describe(self, st, v):
        if isinstance(v, Iface):
            if isinstance(v.v, Str):
                b = self.strbytes(st, v.v)
                if b is not None:
                    return b.decode('utf8', 'replace')
            return self.p.types[v.t]['s'] if isinstance(v.t, int) else str(v.t)
        return str(v)

    def i_ret(self, st, fr, ins):
        self.do_return(st, fr, tuple(self.val(st, fr, r) for r in ins['rs']))

    def i_rundefers(self, st, fr, ins):
        if fr.defers:
            d = fr.defers.pop()
            self.invoke(st, fr, d, None, 'defer')
            return
        fr.ip += 1

    def callee(self, st, fr, ins):
        args = [self.val(st, fr, a) for a in ins['args']]
        if 'inv' in ins:
            recv = self.val(st, fr, ins['recv'])
            if recv is None:
                raise GoPanic('nil pointer dereference')
            if isinstance(recv.t, tuple):
                return ('opaque', ins['inv']), [recv] + args, (), ins
            tab = self.p.mtab.get(str(recv.t))
            if tab is None or ins['inv'] not in tab:
                raise Unsupported('no method ' + ins['inv'])
            return self.p.fns[tab[ins['inv']]], [recv.v] + args, (), ins
        f = ins['fn']
        if isinstance(f, dict) and f['k'] == 'b':
            return ('builtin', f['n']), args, (), ins
        f = self.val(st, fr, f)
        if f is None:
            raise GoPanic('nil pointer dereference')
        return self.p.fns[f.id], args, f.binds, ins

    def i_defer(self, st, fr, ins):
        fr.defers.append(self.callee(st, fr, ins))
        fr.ip += 1

    def i_call(self, st, fr, ins):
        self.invoke(st, fr, self.callee(st, fr, ins), ins.get('r'), 'call')

    def invoke(self, st, fr, callee, ret, mode):
        """returns True when a frame was pushed"""
        fn, args, binds, ins = callee
        if isinstance(fn, tuple):
            if fn[0] == 'builtin':
                v = self.builtin(st, fr, fn[1], args, ins, mode)
            else:
                v = self.opaque_call(st, fn[1], args)
        else:
            if self.initing and fn['n'].endswith('.init') and not self.own_pkg(fn['pkg']):
                fr.ip += 1
                return False
            h = self.intr.find(fn)
            if h is not None:
                v = h(self, st, fr, fn, args, ins)
                if v is CALLED:
                    return True
            elif fn.get('ext') or 'b' not in fn:
                if fn['n'].endswith('.init') or '.init#' in fn['n']:
                    v = None
                else:
                    raise Unsupported('call to ' + fn['full'])
            else:
                self.push(st, fn, args, binds, ret, mode)
                return True
        if mode == 'call':
            if ret is not None:
                fr.regs[ret] = v
            fr.ip += 1
        return False

    def opaque_call(self, st, name, args):
        if name == 'Error':
            return args[0].v
        raise Unsupported('method of opaque value')

    def builtin(self, st, fr, n, args, ins, mode):
        at = ins['at']
        if n == 'len':
            x = args[0]
            if isinstance(x, (Slice, Str)):
                return x.len
            if x is None:
                return 0
            if isinstance(x, MapRef):
                return len(st.heap[x.obj].ents)
            if isinstance(x, tuple):
                return len(x)
            if isinstance(x, ByteArr):
                return x.n
            if isinstance(x, Ptr):
                return self.p.u(self.p.u(at[0])['e'])['n']
            raise Unsupported('len')
        if n == 'cap':
            x = args[0]
            if isinstance(x, Slice):
                return x.cap
            raise Unsupported('cap')
        if n == 'append':
            return self.append(st, args[0], args[1] if len(args) > 1 else NILS, self.p.u(at[0])['e'])
        if n == 'copy':
            return self.copyb(st, args[0], args[1], self.p.u(at[0])['e'])
        if n == 'recover':
            if fr.mode == 'unwind' and len(st.frames) > 1:
                p = st.frames[-2].panic
                if p is not None and not p['recovered']:
                    p = dict(p, recovered=True)
                    st.frames[-2].panic = p
                    return p['val'] if p['val'] is not None else Iface(('opaque', 'runtime'), self.mkstr(st, p['what'].encode()))
            return None
        if n == 'delete':
            m, k = args
            if m is None:
                return None
            i = self.mapfind(st, m, k, self.p.u(at[0])['key'])
            if i >= 0:
                o = st.heap[m.obj]
                self.wr(st, m.obj, o)
                st.heap[m.obj] = OMap(o.ents[:i] + o.ents[i + 1:], o.own)
            return None
        if n == 'clear':
            x = args[0]
            if isinstance(x, MapRef):
                o = st.heap[x.obj]
                self.wr(st, x.obj, o)
                st.heap[x.obj] = OMap((), o.own)
                return None
            if isinstance(x, Slice):
                if x.obj is None:
                    return None
                et = self.p.u(at[0])['e']
                if self.isbyte(et):
                    m, off = self.smem(st, x)
                    self.setmem(st, x, M.fill(m, off, x.len, 0))
                    return None
                for i in range(self.concretize(st, x.len, 64, 'length')):
                    self.store(st, Ptr(x.obj, x.path + (add(x.off, i),)), self.zero(et), et)
                return None
        if n in ('min', 'max'):
            v = args[0]
            for y in args[1:]:
                lt = self.binint(st, '<', v, y, at[0], at[0]) if self.isint(at[0]) else self.unsup('min')
                lt = self.branch(st, lt)
                v = (v if lt else y) if n == 'min' else (y if lt else v)
            return v
        if n == 'StringData':
            s = args[0]
            return None if s.obj is None else Ptr(s.obj, (s.off,))
        if n == 'SliceData':
            s = args[0]
            return None if s.obj is None else Ptr(s.obj, s.path + (s.off,))
        if n == 'Slice':
            p, ln = args[0], self.i64(args[1], at[1])
            if p is None:
                if self.branch(st, (ln == 0) if isc(ln) else bv(ln) == 0):
                    return NILS
                raise GoPanic('unsafe.Slice: ptr is nil and len is not zero')
            path = p.path
            o = st.heap[p.obj]
            if not path:
                path = (0,)
            return Slice(p.obj, path[:-1], path[-1], ln, ln)
        if n == 'String':
            p, ln = args[0], self.i64(args[1], at[1])
            if p is None:
                return EMPTY
            path = p.path or (0,)
            if len(path) > 1:
                raise Unsupported('unsafe.String over cells')
            return Str(p.obj, path[0], ln)
        if n == 'ssa:wrapnilchk':
            if args[0] is None:
                raise GoPanic('nil pointer dereference')
            return args[0]
        if n in ('print', 'println'):
            return None
        raise Unsupported('builtin ' + n)

    # ---------- assertions
    def assert_(self, st, c, msg, keep=True):
        c = self.norm(c)
        rec = self.asserts.setdefault(msg, {'n': 0, 'solver': 0, 'trivial': 0})
        rec['n'] += 1
        if c is True:
            rec['trivial'] += 1
            return
        rec['solver'] += 1
        if c is False:
            self.violation(st, msg, [])
            raise PathEnd('violated', msg)
        nc = z3.Not(c)
        r, m = self.check(st.pc + [nc])
        if r == 'unsat' and self.RECHECK:
            # thorough tier: the linear view's proof once more, bit-precisely
            r2, m2 = self.xcheck(st.pc + [nc], self.RECHECK)
            self.stats.rechecked += 1
            if r2 == 'unknown':
                self.stats.recheck_unknown += 1
            else:
                r, m = r2, m2
        if r != 'unsat':
            r, m = self.xcheck(st.pc + [nc])
        if r == 'sat':
            self.violation(st, msg, [nc])
            r2, m2 = self.check(st.pc + [c])
            if r2 == 'unsat':
                raise PathEnd('violated', msg)
            st.model = m2
            st.pc.append(c)
            return
        if r == 'unknown':
            self.undecided.append(msg)
            if keep:
                st.pc.append(c)

    def violation(self, st, msg, extra, kind='assert'):
        s = st.clone()
        s.pc += extra
        fr = st.frames[-1] if st.frames else None
        self.violations.append({'msg': msg, 'kind': kind, 'state': s, 'where': None})


CALLED = object()
