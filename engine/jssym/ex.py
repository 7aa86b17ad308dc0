"""Symbolic execution of JavaScript (the ESTree of the TypeScript compiler's output).

A path is run from the start with the decisions that lead to it; whatever the
program does between is ordinary interpretation over symbolic values."""
import math, struct, time
import z3
from gosym import mem as M
from gosym.mem import bv, isc
from gosym.ex import Executor, PathEnd, State, Unsupported
from .vals import *

TDZ = object()
IMAX = 1 << 53


class Env:
    __slots__ = ('v', 'up', 'fn', 'const')

    def __init__(self, up, fn=None):
        self.v, self.up = {}, up
        self.fn = fn if fn is not None else (up.fn if up else None)
        self.const = None


class Fn:
    """what belongs to one call of an ordinary function"""
    __slots__ = ('this', 'func', 'newtarget', 'id')

    def __init__(self, this, func, newtarget, id):
        self.this, self.func, self.newtarget, self.id = this, func, newtarget, id


class PrivName:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n


class ImportRef:
    __slots__ = ('mod', 'name')

    def __init__(self, mod, name):
        self.mod, self.name = mod, name


class JSExecutor(Executor):
    STEP_LIMIT = 600000

    def __init__(self, prog, intrinsics, timeout_ms=20000, mode=''):
        super().__init__(prog, intrinsics, timeout_ms, mode)

    # ------------------------------------------------------------ paths
    def explore(self, base, fid, deadline=None, max_paths=20000):
        self.deadline = deadline
        self.work = [([], None)]
        n = 0
        while self.work:
            if deadline and time.time() > deadline:
                yield ('timeout', f'{len(self.work)} paths left'), None
                return
            n += 1
            if n > max_paths:
                yield ('timeout', f'path limit, {len(self.work)} left'), None
                return
            dec, model = self.work.pop()
            st = State()
            st.frames, st.heap, st.nid, st.pc, st.model, st.inputs, st.names = [], {}, 0, [], None, [], {}
            st.pools, st.events, st.decided, st.dpos, st.conc, st.steps = {}, [], list(dec), 0, {}, 0
            st.labels, st.caps, st.trace, st.dead = set(), [], model, None
            yield self.run_js(st, fid), st

    def run_js(self, st, fid):
        self.st = st
        self.fresh = 0
        self.nact = 0
        self.forkn = {}
        self.where = []
        self.node = None
        M.DECIDE = lambda c: self.decide(st, c)
        st.dead = len(st.decided)
        mod, name = fid
        try:
            from . import lib
            lib.setup(self)
            env = self.module(mod)
            f = self.export(mod, name)
            self.call(f, UNDEF, [])
            return ('ret', None)
        except JSThrow as e:
            return ('panic', {'what': 'uncaught ' + self.describe_err(e.v), 'fn': '/'.join(self.where_thrown(e)), 'val': None})
        except PathEnd as e:
            return (e.why, e.msg)
        except Unsupported as e:
            return ('unsupported', str(e) + self.at())

    def at(self):
        n = self.node
        return f' in {self.where[-1] if self.where else "?"}' + (f' ({n["type"]} at {n["start"]})' if n else '')

    def where_thrown(self, e):
        w = getattr(e, 'where', None)
        return [w] if w else self.where[-1:] or ['?']

    def describe_err(self, v):
        if isinstance(v, Obj):
            c = v.proto
            while isinstance(c, Obj):
                k = c.props.get('constructor')
                if k is not None:
                    k = k[0] if isinstance(k, tuple) else k
                    m = v.props.get('message')
                    m = m if isinstance(m, str) else ''
                    return (self.fname(k) + ' ' + m).strip()
                c = c.proto
        return str(v)

    def fname(self, f):
        n = f.props.get('name') if isinstance(f, Obj) else None
        return n if isinstance(n, str) else getattr(f, 'name', '?') or '?'

    def advance(self, st):
        st.dpos += 1
        if st.dpos == st.dead:
            st.model = st.trace

    def rec(self, st, e):
        st.decided.append(e)
        st.dpos += 1

    def push_work(self, st, e, model):
        self.work.append((st.decided + [e], model))

    def count_fork(self):
        k = (self.curact(), id(self.node))
        n = self.forkn[k] = self.forkn.get(k, 0) + 1
        if n > self.LOOP_FORKS:
            raise PathEnd('bound', f'loop bound {self.LOOP_FORKS}{self.at()}')

    def curact(self):
        return self.act

    act = 0

    def branch(self, st, c):
        c = self.norm(c)
        if c is True or c is False:
            return c
        if st.dpos < len(st.decided):
            _, r, forked = st.decided[st.dpos]
            if forked:
                self.count_fork()
                st.pc.append(c if r else z3.Not(c))
            self.advance(st)
            return r
        mv = self.mval(st, c)
        nc = z3.Not(c)
        tm = fm = st.model
        t = f = True
        if mv is not True:
            r, m = self.check(st.pc + [c])
            t = r != 'unsat'
            tm = m
        if mv is not False and t:
            r, m = self.check(st.pc + [nc])
            f = r != 'unsat'
            fm = m
        if t and f and self.prune and not self.lia.exact(c):
            if self.xcheck(st.pc + [nc], 300)[0] == 'unsat':
                f = False
            elif self.xcheck(st.pc + [c], 300)[0] == 'unsat':
                t = False
        if t and f:
            self.count_fork()
            self.push_work(st, ('b', False, True), fm)
            self.rec(st, ('b', True, True))
            st.pc.append(c)
            st.model = tm
            return True
        self.rec(st, ('b', t, False))
        st.model = tm if t else fm
        return t

    def decide(self, st, c):
        c = self.norm(c)
        if c is True or c is False:
            return c
        if st.dpos < len(st.decided):
            r = st.decided[st.dpos][1]
            self.advance(st)
            return r
        r = Executor.decide(self, st, c)
        self.rec(st, ('d', r))
        return r

    def choose(self, st, n):
        if n == 1:
            return 0
        if st.dpos < len(st.decided):
            r = st.decided[st.dpos][1]
            self.advance(st)
            return r
        for v in range(n - 1, 0, -1):
            self.push_work(st, ('n', v), st.model)
        self.rec(st, ('n', 0))
        return 0

    def concretize(self, st, x, limit=16, what='value'):
        x = x if isc(x) else M.simp(x)
        if isc(x):
            return x
        if st.dpos < len(st.decided):
            v, e = st.decided[st.dpos][1:]
            st.pc += [x == v] if v is not None else e
            self.advance(st)
            if v is None:
                raise PathEnd('bound', f'more than {limit} values for {what}')
            return v
        vals, ex = [], []
        while len(vals) < limit:
            r, m = self.xcheck(st.pc + ex)
            if r != 'sat':
                if r == 'unknown':
                    vals.append((None, list(ex)))
                break
            v = m.eval(x, model_completion=True).as_long()
            vals.append((v, None))
            ex.append(x != v)
        else:
            if self.xcheck(st.pc + ex)[0] != 'unsat':
                vals.append((None, list(ex)))
        if not vals:
            raise PathEnd('infeasible')
        for v, e in vals[1:]:
            self.push_work(st, ('c', v, e), None)
        v, e = vals[0]
        self.rec(st, ('c', v, e))
        if v is None:
            raise PathEnd('bound', f'solver gave no value for {what}')
        st.pc.append(x == v)
        st.model = None
        return v

    def assume(self, st, c):
        c = self.norm(c)
        if c is True:
            return
        if c is not False and st.dpos < len(st.decided):
            st.pc.append(c)
            return
        Executor.assume(self, st, c)

    def assert_(self, st, c, msg, keep=True):
        if st.dpos < len(st.decided):
            if st.decided[st.dpos][1]:
                st.pc.append(self.norm(c))
            self.advance(st)
            return
        n = len(st.pc)
        Executor.assert_(self, st, c, msg, keep)
        self.rec(st, ('a', len(st.pc) > n))

    def idx(self, what, lo, hi):
        """a fresh index; its range is part of its name (paths share names)"""
        self.fresh += 1
        v = z3.BitVec(f'{what}!{self.fresh}!{lo}!{hi}', 64)
        self.lia.index(v, lo, hi)
        return v

    def freshbv(self, what, w):
        self.fresh += 1
        return z3.BitVec(f'{what}!{self.fresh}!{w}', w)

    # ------------------------------------------------------------ numbers
    def mk(self, t, lo, hi):
        if isc(t):
            return t - (1 << 64) if t >= 1 << 63 else t
        t = M.simp(t)
        if isc(t):
            return t - (1 << 64) if t >= 1 << 63 else t
        if lo == hi:
            return lo
        return SInt(t, lo, hi)

    def T(self, x):
        """64-bit term of an integer number"""
        return x & M64 if isinstance(x, int) else x.t

    def rng(self, x):
        return (x, x) if isinstance(x, int) else (x.lo, x.hi)

    def isint(self, x):
        return iscint(x) or isinstance(x, SInt)

    def unsup(self, m):
        raise Unsupported(m)

    def cond(self, c):
        """a condition as Python bool or z3 Bool"""
        if isinstance(c, (bool, z3.BoolRef)):
            return c
        return self.truth(c)

    def test(self, c):
        c = self.cond(c)
        return c if isinstance(c, bool) else self.branch(self.st, c)

    def truth(self, v):
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        if v is UNDEF or v is NULL:
            return False
        if iscint(v):
            return v != 0
        if isinstance(v, float):
            return not (v == 0 or v != v)
        if isinstance(v, SInt):
            return True if v.lo > 0 or v.hi < 0 else v.t != 0
        if isinstance(v, Rat):
            return self.truth(v.n)
        if isinstance(v, Flt):
            f = self.fp(v)
            return z3.Not(z3.Or(z3.fpIsNaN(f), z3.fpIsZero(f)))
        if isinstance(v, Big):
            return v.v != 0
        if isinstance(v, str):
            return v != ''
        if isinstance(v, SStr):
            return z3.Not(v.n == 0) if not isc(v.n) else v.n != 0
        if isinstance(v, OStr):
            self.unsup('truth of unknown text')
        return True

    def fp(self, v):
        """the number as a z3 double"""
        if isinstance(v, Flt):
            if v.w == 32:
                return z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(bv(v.b, 32), z3.Float32()), z3.Float64())
            return z3.fpBVToFP(bv(v.b, 64), z3.Float64())
        if isinstance(v, (int, float)):
            return z3.FPVal(float(v), z3.Float64())
        if isinstance(v, SInt):
            return z3.fpSignedToFP(z3.RNE(), v.t, z3.Float64())
        self.unsup('conversion to a double')

    def toint(self, x, w32=None):
        """an integral number; w32: 's'/'u' wraps to 32 bits"""
        x = self.tonum(x)
        if isinstance(x, float):
            if x != x or math.isinf(x):
                x = 0
            else:
                x = int(x)
        if isinstance(x, Rat):
            x = self.trunc(x)
        if isinstance(x, Flt):
            self.unsup('integer conversion of a symbolic double')
        if w32 is None:
            return x
        lo, hi = (-(1 << 31), (1 << 31) - 1) if w32 == 's' else (0, (1 << 32) - 1)
        if isinstance(x, int):
            x &= 0xffffffff
            return x - (1 << 32) if w32 == 's' and x >> 31 else x
        if x.lo >= lo and x.hi <= hi:
            return x
        e = z3.Extract(31, 0, x.t)
        return self.mk(z3.SignExt(32, e) if w32 == 's' else z3.ZeroExt(32, e), lo, hi)

    def trunc(self, r):
        """towards zero"""
        lo, hi = self.rng(r.n)
        if lo < 0:
            if hi <= 0:
                n = self.arith('-', 0, r.n)
                return self.arith('-', 0, self.floor(Rat(n, r.d)))
            if self.test(self.compare('<', r.n, 0)):
                n = self.clip(self.arith('-', 0, r.n), 0, -lo)
                return self.arith('-', 0, self.floor(Rat(n, r.d)))
            return self.floor(Rat(self.clip(r.n, 0, hi), r.d))
        return self.floor(r)

    def clip(self, x, lo, hi):
        if isinstance(x, int):
            return x
        return SInt(x.t, max(lo, x.lo), min(hi, x.hi))

    def floor(self, r):
        lo, hi = self.rng(r.n)
        if isinstance(r.n, int):
            return r.n // r.d
        if r.d & (r.d - 1) == 0:
            s = r.d.bit_length() - 1
            return self.mk(z3.LShR(r.n.t, s) if lo >= 0 else r.n.t >> s, lo >> s, hi >> s)
        if lo >= 0:
            return self.mk(z3.UDiv(r.n.t, bv(r.d)), lo // r.d, hi // r.d)
        self.unsup('floor of a negative quotient')

    def tonum(self, v):
        if isnum(v):
            return v
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, z3.BoolRef):
            return self.mk(z3.If(v, bv(1), bv(0)), 0, 1)
        if v is UNDEF:
            return math.nan
        if v is NULL:
            return 0
        if isinstance(v, Big):
            self.throw('TypeError', 'Cannot convert a BigInt value to a number')
        if isinstance(v, str):
            return self.strnum(v)
        if isinstance(v, Symbol):
            self.throw('TypeError', 'Cannot convert a Symbol value to a number')
        if isinstance(v, Obj):
            return self.tonum(self.toprim(v, 'number'))
        self.unsup(f'conversion of {type(v).__name__} to a number')

    def strnum(self, s):
        s = s.strip()
        if s == '':
            return 0
        try:
            if s[:2].lower() in ('0x', '0b', '0o'):
                return num(float(int(s, 0))) if int(s, 0) > IMAX else int(s, 0)
            if s in ('Infinity', '+Infinity'):
                return math.inf
            if s == '-Infinity':
                return -math.inf
            if not all(c in '0123456789.eE+-' for c in s):
                return math.nan
            return num(float(s))
        except ValueError:
            return math.nan

    def toprim(self, v, hint='default'):
        if not isinstance(v, Obj):
            return v
        for m in (('valueOf', 'toString') if hint != 'string' else ('toString', 'valueOf')):
            f = self.get(v, m)
            if isinstance(f, (Func, Native)):
                r = self.call(f, v, [])
                if not isinstance(r, Obj):
                    return r
        self.throw('TypeError', 'Cannot convert object to primitive value')

    def tostr(self, v):
        if isstr(v):
            return v
        if v is UNDEF:
            return 'undefined'
        if v is NULL:
            return 'null'
        if isinstance(v, bool):
            return 'true' if v else 'false'
        if isinstance(v, z3.BoolRef):
            return 'true' if self.test(v) else 'false'
        if isinstance(v, int):
            return str(v)
        if isinstance(v, float):
            if v != v:
                return 'NaN'
            if math.isinf(v):
                return 'Infinity' if v > 0 else '-Infinity'
            return '0' if v == 0 else repr(v)
        if isinstance(v, Big) and isinstance(v.v, int):
            return str(v.v)
        if isnum(v) or isinstance(v, Big):
            return OStr()
        if isinstance(v, Symbol):
            self.throw('TypeError', 'Cannot convert a Symbol value to a string')
        return self.tostr(self.toprim(v, 'string'))

    def arith(self, op, x, y):
        """+ - * / % ** on numbers"""
        if iscint(x) and iscint(y):
            if op == '+':
                return self.cnum(x + y)
            if op == '-':
                return self.cnum(x - y)
            if op == '*':
                if x * y == 0 and (x < 0 or y < 0):
                    return -0.0
                return self.cnum(x * y)
            if op == '/':
                if y and x % y == 0 and not (x == 0 and y < 0):
                    return x // y
            if op == '%' and y:
                r = math.fmod(x, y)
                return -0.0 if r == 0 and x < 0 else int(r)
            if op == '**' and y >= 0 and abs(x) ** min(y, 2000) < 1 << 60:
                return self.cnum(x ** y)
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return self.farith(op, float(x), float(y))
        if self.isint(x) and self.isint(y):
            (a, b), (c, d) = self.rng(x), self.rng(y)
            tx, ty = self.T(x), self.T(y)
            if op in '+-':
                lo, hi = (a + c, b + d) if op == '+' else (a - d, b - c)
                t = M.add(tx, ty) if op == '+' else M.sub(tx, ty)
                return self.checked(t, lo, hi)
            if op == '*':
                ps = [a * c, a * d, b * c, b * d]
                if max(map(abs, ps)) >= 1 << 62:
                    self.unsup('product beyond 2^62')
                if isinstance(x, int) and x == 0 or isinstance(y, int) and y == 0:
                    if min(a, c) >= 0:
                        return 0
                return self.checked(bv(tx) * bv(ty), min(ps), max(ps))
            if op == '/' and isinstance(y, int) and y > 0:
                return Rat(x, y)
            if op == '%' and isinstance(y, int) and y > 0:
                if a >= 0:
                    if y & (y - 1) == 0:
                        return self.mk(bv(tx) & (y - 1), 0, min(b, y - 1))
                    return self.mk(z3.URem(bv(tx), bv(ty)), 0, min(b, y - 1))
                # the sign of the dividend (a zero result of a negative one is -0)
                return self.mk(z3.SRem(bv(tx), bv(ty)), max(a, 1 - y), min(b, y - 1) if b > 0 else 0)
            if op == '%' and a >= 0 and c > 0:
                return self.mk(z3.URem(bv(tx), bv(ty)), 0, min(b, d - 1))
            if op == '**' and isinstance(x, int) and x == 2 and c >= 0 and d <= 53:
                return self.mk(bv(1) << bv(ty), 1 << c, 1 << d)
        if isinstance(x, Rat) and op == '*' and iscint(y):
            if y % x.d == 0:
                return self.arith('*', x.n, y // x.d)
        if isinstance(x, Rat) and op == '/' and iscint(y) and y > 0:
            return Rat(x.n, x.d * y)
        if isinstance(x, Rat) and op in '+-' and iscint(y):
            return Rat(self.arith(op, x.n, y * x.d), x.d)
        if isinstance(x, SInt) and isinstance(y, float) or isinstance(y, SInt) and isinstance(x, float):
            f = y if isinstance(y, float) else x
            if f != f:
                return math.nan
            if math.isinf(f) and op in '+-':
                return f if op == '+' or f is x else -f
            if f == 0 and op == '+':
                return x if f is y else y
        if any(isinstance(v, Flt) for v in (x, y)) and op in '+-*/':
            a, b = self.fp(x), self.fp(y)
            r = {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op](z3.RNE(), a, b)
            return self.ffp(r)
        self.unsup(f'number operation {op}')

    def ffp(self, r):
        b = self.freshbv('fp', 64)
        self.addpc(self.st, z3.fpBVToFP(b, z3.Float64()) == r)
        return Flt(b, 64)

    def cnum(self, v):
        return v if abs(v) <= IMAX else num(float(v))

    def farith(self, op, x, y):
        try:
            if op == '+':
                r = x + y
            elif op == '-':
                r = x - y
            elif op == '*':
                r = x * y
            elif op == '/':
                if y == 0:
                    r = math.nan if x == 0 or x != x else math.copysign(math.inf, math.copysign(1, x) * math.copysign(1, y))
                else:
                    r = x / y
            elif op == '%':
                r = math.nan if y == 0 or math.isinf(x) or x != x or y != y else math.fmod(x, y)
            else:
                r = x ** y
        except OverflowError:
            r = math.inf
        return num(r)

    def checked(self, t, lo, hi):
        """a sum or product: exact as a double, or the path shows that it stays so"""
        if lo < -IMAX or hi > IMAX:
            if lo < -(1 << 62) or hi > 1 << 62:
                self.unsup('number beyond 2^62')
            t = t if isc(t) else M.simp(t)
            if not isc(t):
                c = z3.And(t >= bv(-IMAX & M64), t <= bv(IMAX))
                if self.decide(self.st, c) is not True:
                    self.unsup('number beyond 2^53')
            lo, hi = max(lo, -IMAX), min(hi, IMAX)
        return self.mk(t, lo, hi)

    def bitop(self, op, x, y):
        x = self.toint(x, 'u' if op == '>>>' else 's')
        y = self.toint(y, 's' if op not in ('<<', '>>', '>>>') else 'u')
        (a, b), (c, d) = self.rng(x), self.rng(y)
        if isinstance(x, int) and isinstance(y, int):
            if op == '|':
                r = x | y
            elif op == '&':
                r = x & y
            elif op == '^':
                r = x ^ y
            elif op == '<<':
                r = (x << (y & 31)) & 0xffffffff
                r = r - (1 << 32) if r >> 31 else r
            else:
                r = x >> (y & 31)
            return r
        tx, ty = bv(self.T(x)), bv(self.T(y))
        S = (-(1 << 31), (1 << 31) - 1)
        if op == '&':
            hi = [h for l, h in ((a, b), (c, d)) if l >= 0]
            return self.mk(tx & ty, 0 if hi else S[0], min(hi) if hi else S[1])
        if op in '|^':
            if a >= 0 and c >= 0:
                hi = (1 << max(b, d).bit_length()) - 1
                return self.mk(tx | ty if op == '|' else tx ^ ty, max(a, c) if op == '|' else 0, hi)
            return self.mk(tx | ty if op == '|' else tx ^ ty, *S)
        if isinstance(y, int):
            s = y & 31
            if op == '<<':
                if a >= 0 and b << s <= S[1]:
                    return self.mk(tx << s, a << s, b << s)
                return self.mk(z3.SignExt(32, z3.Extract(31, 0, tx) << s), *S)
            if op == '>>':
                return self.mk(tx >> s if a < 0 else z3.LShR(tx, s), a >> s, b >> s)
            return self.mk(z3.LShR(tx, s), a >> s, b >> s)
        s = z3.Extract(31, 0, ty) & 31
        x32 = z3.Extract(31, 0, tx)
        if op == '<<':
            return self.mk(z3.SignExt(32, x32 << s), *S)
        if op == '>>':
            return self.mk(z3.SignExt(32, x32 >> s), min(a, 0), max(b, 0))
        return self.mk(z3.ZeroExt(32, z3.LShR(x32, s)), 0, b)

    def compare(self, op, x, y):
        """< <= > >= on numbers"""
        if op in ('>', '>='):
            return self.compare('<' if op == '>' else '<=', y, x)
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return x < y if op == '<' else x <= y
        if isinstance(x, Rat) or isinstance(y, Rat):
            (n, d), (m, e) = [(v.n, v.d) if isinstance(v, Rat) else (v, 1) for v in (x, y)]
            if isinstance(n, float) or isinstance(m, float):
                self.unsup('comparison of a quotient')
            return self.compare(op, self.arith('*', n, e), self.arith('*', m, d))
        if isinstance(x, Flt) or isinstance(y, Flt):
            a, b = self.fp(x), self.fp(y)
            return z3.fpLT(a, b) if op == '<' else z3.fpLEQ(a, b)
        for v, o in ((x, y), (y, x)):
            if isinstance(v, float):
                if v != v:
                    return False
                if math.isinf(v):
                    return (v > 0) == (v is y)
                w = math.ceil(v) if v is y and op == '<' or v is x and op == '<=' else math.floor(v)
                return self.compare(op, w if v is x else x, w if v is y else y)
        (a, b), (c, d) = self.rng(x), self.rng(y)
        if b < c or op == '<=' and b <= c:
            return True
        if a > d or op == '<' and a >= d:
            return False
        tx, ty = bv(self.T(x)), bv(self.T(y))
        if a >= 0 and c >= 0:
            return z3.ULT(tx, ty) if op == '<' else z3.ULE(tx, ty)
        return tx < ty if op == '<' else tx <= ty

    def numeq(self, x, y):
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return x == y
        if isinstance(x, Flt) or isinstance(y, Flt):
            return z3.fpEQ(self.fp(x), self.fp(y))
        if isinstance(x, Rat) or isinstance(y, Rat):
            (n, d), (m, e) = [(v.n, v.d) if isinstance(v, Rat) else (v, 1) for v in (x, y)]
            if isinstance(n, float) or isinstance(m, float):
                self.unsup('comparison of a quotient')
            return self.numeq(self.arith('*', n, e), self.arith('*', m, d))
        for v in (x, y):
            if isinstance(v, float):
                if v == 0 or v == math.floor(v) if math.isfinite(v) else False:
                    continue
                return False
        if isinstance(x, float):
            x = int(x)
        if isinstance(y, float):
            y = int(y)
        (a, b), (c, d) = self.rng(x), self.rng(y)
        if b < c or a > d:
            return False
        return M.eq_(self.T(x), self.T(y))

    # ------------------------------------------------------------ BigInts
    def bt(self, b):
        return z3.BitVecVal(b.v, BW) if isinstance(b.v, int) else b.v

    def mkbig(self, t, lo, hi):
        if isinstance(t, int):
            return Big(t)
        t = z3.simplify(t)
        if z3.is_bv_value(t):
            return Big(t.as_signed_long())
        if lo < -(1 << (BW - 2)) or hi > 1 << (BW - 2):
            self.unsup(f'BigInt beyond {BW - 2} bits')
        return Big(t, lo, hi)

    def bigop(self, op, x, y):
        (a, b), (c, d) = (x.lo, x.hi), (y.lo, y.hi)
        if isinstance(x.v, int) and isinstance(y.v, int):
            x, y = x.v, y.v
            if op in ('/', '%') and y == 0:
                self.throw('RangeError', 'Division by zero')
            if op in ('<<', '>>') and abs(y) > 4096:
                self.unsup('shift of a BigInt by a large count')
            if op == '/':
                r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            elif op == '%':
                r = abs(x) % abs(y) * (-1 if x < 0 else 1)
            elif op in ('<<', '>>'):
                s = y if op == '<<' else -y
                r = x << s if s >= 0 else x >> -s
            elif op == '**':
                if y < 0:
                    self.throw('RangeError', 'Exponent must be non-negative')
                r = x ** min(y, 4096)
            else:
                r = {'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y}[op]
            return Big(r)
        X, Y = self.bt(x), self.bt(y)
        if op == '+':
            return self.mkbig(X + Y, a + c, b + d)
        if op == '-':
            return self.mkbig(X - Y, a - d, b - c)
        if op == '*':
            p = [a * c, a * d, b * c, b * d]
            return self.mkbig(X * Y, min(p), max(p))
        if op in '&|^':
            w = max(a.bit_length(), b.bit_length(), c.bit_length(), d.bit_length())
            lo, hi = -(1 << w), (1 << w) - 1
            if op == '&':
                n = [h for l, h in ((a, b), (c, d)) if l >= 0]
                if n:
                    lo, hi = 0, min(n)
                return self.mkbig(X & Y, lo, hi)
            if a >= 0 and c >= 0:
                lo = 0
            return self.mkbig(X | Y if op == '|' else X ^ Y, lo, hi)
        if op in ('<<', '>>'):
            if not isinstance(y.v, int):
                if c >= 0 and d < BW:
                    if op == '<<':
                        return self.mkbig(X << Y, min(a, a << d), max(b, b << d))
                    return self.mkbig(X >> Y, min(a, a >> d, 0), max(b, 0))
                self.unsup('BigInt shift count')
            s = y.v if op == '<<' else -y.v
            if s >= 0:
                return self.mkbig(X << s, a << s, b << s)
            return self.mkbig(z3.LShR(X, -s) if a >= 0 else X >> -s, a >> -s, b >> -s)
        if op in '/%' and isinstance(y.v, int) and y.v != 0:
            m = abs(y.v)
            if y.v > 0 and m & (m - 1) == 0 and a >= 0:
                k = m.bit_length() - 1
                if op == '/':
                    return self.mkbig(z3.LShR(X, k), a >> k, b >> k)
                return self.mkbig(X & (m - 1), 0, min(b, m - 1))
            if y.v > 0 and m & (m - 1) == 0:
                # truncation towards zero
                k = m.bit_length() - 1
                if op == '/':
                    r = z3.If(X < 0, -z3.LShR(-X, k), z3.LShR(X, k))
                    return self.mkbig(r, -(-a >> k) if a < 0 else 0, (b >> k) if b > 0 else 0)
                r = z3.If(X < 0, -(-X & (m - 1)), X & (m - 1))
                return self.mkbig(r, max(a, 1 - m), min(b, m - 1) if b > 0 else 0)
            e = max(abs(a), abs(b))
            if op == '/':
                return self.mkbig(X / Y, -e, e)
            return self.mkbig(z3.SRem(X, Y), -min(e, m - 1), min(e, m - 1))
        self.unsup(f'BigInt operation {op}')

    def bigcmp(self, op, x, y):
        if op in ('>', '>='):
            return self.bigcmp('<' if op == '>' else '<=', y, x)
        if x.hi < y.lo or op == '<=' and x.hi <= y.lo:
            return True
        if x.lo > y.hi or op == '<' and x.lo >= y.hi:
            return False
        X, Y = self.bt(x), self.bt(y)
        if x.lo >= 0 and y.lo >= 0:
            return z3.ULT(X, Y) if op == '<' else z3.ULE(X, Y)
        return X < Y if op == '<' else X <= Y

    def bigeq(self, x, y):
        if isinstance(x.v, int) and isinstance(y.v, int):
            return x.v == y.v
        if x.hi < y.lo or y.hi < x.lo:
            return False
        return self.bt(x) == self.bt(y)

    def num2big(self, x):
        """for mixed comparisons: an integral number as BigInt"""
        if iscint(x):
            return Big(x)
        if isinstance(x, SInt):
            return self.mkbig(z3.SignExt(BW - 64, x.t), x.lo, x.hi)
        return None

    def big2num(self, b):
        if isinstance(b.v, int):
            return self.cnum(b.v)
        lo, hi = b.lo, b.hi
        if lo < -IMAX or hi > IMAX:
            t = b.v
            c = z3.And(t >= z3.BitVecVal(-IMAX, BW), t <= z3.BitVecVal(IMAX, BW))
            if not self.test(c):
                return self.ffp(z3.fpSignedToFP(z3.RNE(), t, z3.Float64()))
            lo, hi = max(lo, -IMAX), min(hi, IMAX)
            if self.decide(self.st, t >= 0) is True:
                lo = max(lo, 0)
        return self.mk(z3.Extract(63, 0, b.v), lo, hi)

    # ------------------------------------------------------------ operators
    def equal(self, x, y):
        """==="""
        if isnum(x) and isnum(y):
            return self.numeq(x, y)
        if isinstance(x, Big) and isinstance(y, Big):
            return self.bigeq(x, y)
        if isbool(x) and isbool(y):
            if isinstance(x, bool) and isinstance(y, bool):
                return x == y
            return z3.simplify((x if not isinstance(x, bool) else z3.BoolVal(x)) == (y if not isinstance(y, bool) else z3.BoolVal(y)))
        if isstr(x) and isstr(y):
            return self.streq(x, y)
        return x is y

    def streq(self, x, y):
        if isinstance(x, str) and isinstance(y, str):
            return x == y
        if isinstance(x, OStr) or isinstance(y, OStr):
            self.unsup('comparison of unknown text')
        from . import lib
        a, b = lib.strbytes(self, x), lib.strbytes(self, y)
        e = M.eq_(a[2], b[2])
        if not (self.test(e) if e is not True and e is not False else e):
            return False
        n = a[2] if isc(a[2]) else b[2]
        if not isc(n):
            self.unsup('equality of long texts')
        c = True
        for i in range(n):
            p, q = M.readp(a[0], M.add(a[1], i)), M.readp(b[0], M.add(b[1], i))
            if isc(p) and isc(q):
                if p != q:
                    return False
                continue
            c = self.conj(c, bv(p, 8) == bv(q, 8))
        return c

    def looseeq(self, x, y):
        if (x is UNDEF or x is NULL) and (y is UNDEF or y is NULL):
            return True
        if x is UNDEF or x is NULL or y is UNDEF or y is NULL:
            return False
        if isnum(x) and isnum(y) or type(x) is type(y) or isstr(x) and isstr(y):
            return self.equal(x, y)
        for a, b in ((x, y), (y, x)):
            if isinstance(a, Big) and isnum(b):
                c = self.num2big(b)
                if c is None:
                    self.unsup('comparison of BigInt and double')
                return self.bigeq(a, c)
            if isbool(a):
                return self.looseeq(self.tonum(a), b)
            if isnum(a) and isstr(b):
                return self.numeq(a, self.tonum(b))
            if isinstance(a, Obj) and not isinstance(b, Obj):
                return self.looseeq(self.toprim(a), b)
        self.unsup('loose equality')

    def sameval(self, x, y):
        """Object.is"""
        if isnum(x) and isnum(y):
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                if x != x and y != y:
                    return True
                return x == y and math.copysign(1, x) == math.copysign(1, y)
            if isinstance(x, Flt) and isinstance(y, Flt) and x.w == y.w:
                a, b = bv(x.b, x.w), bv(y.b, y.w)
                return z3.Or(a == b, z3.And(self.nanbits(a), self.nanbits(b)))
            if isinstance(x, Flt) or isinstance(y, Flt):
                return self.fp(x) == self.fp(y)
            return self.numeq(x, y)
        return self.equal(x, y)

    def nanbits(self, b):
        w = b.size()
        m = 23 if w == 32 else 52
        e = z3.Extract(w - 2, m, b)
        return z3.And(e == z3.BitVecVal(-1, e.size()), z3.Extract(m - 1, 0, b) != 0)

    def neg(self, c):
        return not c if isinstance(c, bool) else z3.Not(c)

    def binary(self, op, x, y):
        if op == '===':
            return self.equal(x, y)
        if op == '!==':
            return self.neg(self.equal(x, y))
        if op == '==':
            return self.looseeq(x, y)
        if op == '!=':
            return self.neg(self.looseeq(x, y))
        if op == 'instanceof':
            return self.instanceof(x, y)
        if op == 'in':
            if not isinstance(y, Obj):
                self.throw('TypeError', 'in')
            return self.has(y, self.key(x))
        if isinstance(x, Obj):
            x = self.toprim(x, 'default' if op == '+' else 'number')
        if isinstance(y, Obj):
            y = self.toprim(y, 'default' if op == '+' else 'number')
        if op == '+' and (isstr(x) or isstr(y)):
            return self.concat(self.tostr(x), self.tostr(y))
        if op in ('<', '<=', '>', '>='):
            if isstr(x) and isstr(y):
                if isinstance(x, str) and isinstance(y, str):
                    a, b = x.encode('utf-16-be', 'surrogatepass'), y.encode('utf-16-be', 'surrogatepass')
                    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
                self.unsup('ordering of symbolic text')
            if isinstance(x, Big) or isinstance(y, Big):
                if not isinstance(x, Big) or not isinstance(y, Big):
                    a = x if isinstance(x, Big) else self.tonum(x)
                    b = y if isinstance(y, Big) else self.tonum(y)
                    for v, left in ((a, True), (b, False)):
                        if isinstance(v, float):
                            if v != v:
                                return False
                            if math.isinf(v):
                                return (op in ('<', '<=')) == ((v > 0) != left)
                            f = math.floor(v)
                            if f != v:
                                # between two integers
                                o = '<' if op in ('<', '<=') else '>'
                                if left:
                                    return self.bigcmp('<=' if o == '<' else '>=', Big(f + 1 if o == '<' else f), b)
                                return self.bigcmp('<=' if o == '<' else '>=', a, Big(f if o == '<' else f + 1))
                            if left:
                                a = Big(f)
                            else:
                                b = Big(f)
                    x = a if isinstance(a, Big) else self.num2big(a)
                    y = b if isinstance(b, Big) else self.num2big(b)
                    if x is None or y is None:
                        self.unsup('comparison of BigInt and double')
                return self.bigcmp(op, x, y)
            return self.compare(op, self.tonum(x), self.tonum(y))
        if isinstance(x, Big) or isinstance(y, Big):
            if not (isinstance(x, Big) and isinstance(y, Big)):
                if isinstance(x, Symbol) or isinstance(y, Symbol):
                    self.throw('TypeError', 'Cannot convert a Symbol value to a number')
                self.throw('TypeError', 'Cannot mix BigInt and other types, use explicit conversions')
            if op == '>>>':
                self.throw('TypeError', 'BigInts have no unsigned right shift, use >> instead')
            return self.bigop(op, x, y)
        if op in ('|', '&', '^', '<<', '>>', '>>>'):
            return self.bitop(op, x, y)
        return self.arith(op, self.tonum(x), self.tonum(y))

    def concat(self, x, y):
        if isinstance(x, str) and isinstance(y, str):
            return x + y
        if x == '' if isinstance(x, str) else False:
            return y
        if y == '' if isinstance(y, str) else False:
            return x
        if isinstance(x, OStr) or isinstance(y, OStr):
            return OStr()
        from . import lib
        a, b = lib.strbytes(self, x), lib.strbytes(self, y)
        m = M.copy(M.copy(M.ZERO, 0, a[0], a[1], a[2]), a[2], b[0], b[1], b[2])
        return SStr(m, 0, M.add(a[2], b[2]))

    def instanceof(self, x, f):
        if not isinstance(f, (Func, Native)):
            self.throw('TypeError', 'Right-hand side of instanceof is not callable')
        p = self.get(f, 'prototype')
        while isinstance(x, Obj):
            x = x.proto
            if x is p and p is not None:
                return True
        return False

    # ------------------------------------------------------------ objects
    def throw(self, name, msg=''):
        e = JSThrow(self.error(name, msg))
        e.where = self.where[-1] if self.where else '?'
        raise e

    def error(self, name, msg):
        e = Obj(self.globals[name].props['prototype'])
        e.props['message'] = msg
        return e

    def key(self, v):
        if isinstance(v, str) or isinstance(v, Symbol):
            return v
        if isinstance(v, SInt):
            return v
        if isinstance(v, Flt) or isinstance(v, Rat):
            self.unsup('property key')
        s = self.tostr(v)
        if not isinstance(s, str):
            self.unsup('symbolic property key')
        return s

    def getv(self, o, k):
        """o[k] with an evaluated key"""
        if isinstance(o, (View, Arr)) and (self.isint(k) or isinstance(k, (float, Rat, Flt))):
            return self.getidx(o, k)
        if isinstance(o, str) and iscint(k):
            u = o.encode('utf-16-le', 'surrogatepass')
            return u[2 * k:2 * k + 2].decode('utf-16-le', 'surrogatepass') if 0 <= k < len(u) // 2 else UNDEF
        k = self.key(k)
        if isinstance(k, SInt):
            # a table looked up by a symbolic number
            k = str(self.concretize_num(k, 'property key'))
        return self.get(o, k)

    def concretize_num(self, x, what, limit=32):
        v = self.concretize(self.st, x.t, limit, what)
        return v - (1 << 64) if v >> 63 else v

    def getidx(self, o, i):
        from . import lib
        if isinstance(o, Arr):
            if isinstance(i, SInt):
                if not self.test(self.conj(self.compare('>=', i, 0), self.compare('<', i, len(o.a)))):
                    return UNDEF
                if len(o.a) > 64:
                    self.unsup('long table looked up by a symbolic number')
                i = self.concretize_num(i, 'array index', 64)
            if not iscint(i):
                return UNDEF
            return o.a[i] if 0 <= i < len(o.a) else UNDEF
        if not self.isint(i):
            if isinstance(i, Rat) or isinstance(i, Flt):
                self.unsup('fractional index')
            return UNDEF
        if o.kind is None:
            return UNDEF
        if not self.test(self.conj(self.compare('>=', i, 0), self.compare('<', i, self.fromt(o.n)))):
            return UNDEF
        return lib.vget(self, o, self.T(i))

    def setidx(self, o, i, v):
        from . import lib
        if isinstance(o, Arr):
            if isinstance(i, SInt):
                i = self.concretize_num(i, 'array index')
            if not iscint(i) or i < 0:
                self.unsup('array store')
            if o.frozen:
                self.throw('TypeError', 'Cannot assign to read only property')
            while len(o.a) <= i:
                if len(o.a) > 100000:
                    self.unsup('huge array')
                o.a.append(UNDEF)
            o.a[i] = v
            return
        v = lib.elem(self, o, v)
        if not self.isint(i):
            if isinstance(i, Rat) or isinstance(i, Flt):
                self.unsup('fractional index')
            return
        if self.test(self.conj(self.compare('>=', i, 0), self.compare('<', i, self.fromt(o.n)))):
            lib.vset(self, o, self.T(i), v)

    def fromt(self, n):
        """a length kept as 64-bit term or int, as a number"""
        if isc(n):
            return n
        from . import lib
        return SInt(n, 0, min(self.ub(n), lib.MAXBUF))

    def get(self, o, k, this=None):
        from . import lib
        this = o if this is None else this
        if o is UNDEF or o is NULL:
            self.throw('TypeError', f"Cannot read properties of {o} (reading '{k if isinstance(k, str) else 'symbol'}')")
        if not isinstance(o, Obj):
            p = lib.primproto(self, o)
            if k == 'length' and isstr(o):
                return lib.strlen(self, o)
            o = p
        elif isinstance(o, Arr):
            if k == 'length':
                return len(o.a)
            if isinstance(k, str) and k.isdigit():
                return self.getidx(o, int(k))
        elif isinstance(o, View):
            r = lib.viewprop(self, o, k)
            if r is not None:
                return r
        elif isinstance(o, Buf):
            if k == 'byteLength':
                return self.fromt(o.n)
            if k in ('resizable', 'detached'):
                return False
        elif isinstance(o, MapObj) and k == 'size':
            return len(o.m)
        while isinstance(o, Obj):
            if k in o.props:
                v = o.props[k]
                if isinstance(v, Acc):
                    return self.call(v.get, this, []) if v.get is not None else UNDEF
                return v
            o = o.proto
        return UNDEF

    def has(self, o, k):
        if isinstance(o, Arr) and isinstance(k, str) and k.isdigit():
            return int(k) < len(o.a)
        if isinstance(o, View):
            self.unsup('in on a typed array')
        if isinstance(k, SInt):
            k = str(self.concretize_num(k, 'property key'))
        while isinstance(o, Obj):
            if k in o.props:
                return True
            o = o.proto
        return False

    def set(self, o, k, v):
        if o is UNDEF or o is NULL:
            self.throw('TypeError', f"Cannot set properties of {o} (setting '{k}')")
        if not isinstance(o, Obj):
            return
        if isinstance(o, Arr):
            if k == 'length':
                n = v if iscint(v) else self.unsup('array length')
                while len(o.a) > n:
                    o.a.pop()
                while len(o.a) < n:
                    o.a.append(UNDEF)
                return
            if isinstance(k, str) and k.isdigit():
                return self.setidx(o, int(k), v)
        if isinstance(o, (View, Buf)) and (not isinstance(k, str) or k.isdigit()):
            self.unsup('property store on a typed array')
        p = o
        while isinstance(p, Obj):
            d = p.props.get(k)
            if isinstance(d, Acc):
                if d.set is None:
                    self.throw('TypeError', f'Cannot set property {k} which has only a getter')
                self.call(d.set, o, [v])
                return
            if p is not o and p.frozen == 'ro' and k in p.props:
                break
            p = p.proto
        if o.frozen and (k in o.props or o.frozen is not None):
            if o.frozen is True or k in o.props and o.frozen == 'ro':
                self.throw('TypeError', f'Cannot assign to read only property {k}')
        o.props[k] = v

    def setv(self, o, k, v):
        if isinstance(o, (View, Arr)) and (self.isint(k) or isinstance(k, (float, Rat, Flt))):
            return self.setidx(o, k, v)
        k = self.key(k)
        if isinstance(k, SInt):
            k = str(self.concretize_num(k, 'property key'))
        self.set(o, k, v)

    def newobj(self):
        return Obj(self.protos['Object'])

    def newarr(self, items):
        return Arr(self.protos['Array'], list(items))

    def iterate(self, v):
        """the elements of an iterable, as a Python list"""
        if isinstance(v, Arr):
            return list(v.a)
        if isinstance(v, MapObj):
            return [x[1] if v.isset else self.newarr(x) for x in v.m.values()]
        if isinstance(v, View) and v.kind:
            from . import lib
            n = v.n
            if not isc(n):
                n = self.concretize(self.st, n, 40, 'number of elements')
            if n > 70000:
                raise PathEnd('bound', 'iteration over a long typed array')
            return [lib.vget(self, v, i) for i in range(n)]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SStr):
            self.unsup('iteration over symbolic text')
        it = self.get(v, self.sym_iterator)
        if isinstance(it, (Func, Native)):
            o = self.call(it, v, [])
            nxt = self.get(o, 'next')
            out = []
            while True:
                r = self.call(nxt, o, [])
                if self.test(self.get(r, 'done')):
                    return out
                out.append(self.get(r, 'value'))
        self.throw('TypeError', 'object is not iterable')

    # ------------------------------------------------------------ calls
    def call(self, f, this, args, newtarget=UNDEF):
        if isinstance(f, Native):
            return f.fn(self, this, args)
        if not isinstance(f, Func):
            self.throw('TypeError', 'not a function')
        if f.bound is not None:
            g, t, pre = f.bound
            return self.call(g, t, pre + args)
        if f.kind == 'class' and newtarget is UNDEF:
            self.throw('TypeError', 'Class constructor cannot be invoked without new')
        return self.invoke(f, this, args, newtarget)

    def invoke(self, f, this, args, newtarget):
        node = f.node
        if node.get('generator') or node.get('async'):
            self.unsup('generator or async function')
        self.nact += 1
        save = self.act, self.node
        self.act = self.nact
        nm = self.fname(f)
        owner = f.home
        self.where.append(nm if owner is None else f'{owner}.{nm}')
        fid = f'{node.get("_m", "?")}:{self.where[-1]}'
        self.encoded[fid] = True
        if len(self.where) > 400:
            self.throw('RangeError', 'Maximum call stack size exceeded')
        try:
            if f.kind == 'arrow':
                env = Env(f.env)
            else:
                env = Env(f.env, Fn(this, f, newtarget, self.nact))
                if 'arguments' not in env.v:
                    env.v['arguments'] = None
                    env.v['arguments'] = self.newarr(args)
            self.params(node['params'], args, env)
            if f.kind == 'arrow' and node['body']['type'] != 'BlockStatement':
                return self.ev(node['body'], env)
            body = node['body']['body']
            self.hoist(body, env, True)
            try:
                for s in body:
                    self.ex(s, env)
            except Ret as r:
                return (r.v, env.fn.this)[0] if newtarget is UNDEF else (r.v if isinstance(r.v, Obj) else env.fn.this)
            if newtarget is not UNDEF:
                return env.fn.this
            return UNDEF
        finally:
            self.act, self.node = save
            self.where.pop()

    def params(self, ps, args, env):
        for i, p in enumerate(ps):
            if p['type'] == 'RestElement':
                self.bind(p['argument'], self.newarr(args[i:]), env, 'let')
            else:
                self.bind(p, args[i] if i < len(args) else UNDEF, env, 'let')

    def construct(self, f, args, newtarget=None):
        newtarget = f if newtarget is None else newtarget
        if isinstance(f, Native):
            if f.ctor is None:
                self.throw('TypeError', f'{f.name} is not a constructor')
            r = f.ctor(self, args)
            if newtarget is not f:
                r.proto = self.get(newtarget, 'prototype')
            return r
        if not isinstance(f, Func) or f.kind in ('arrow', 'method'):
            self.throw('TypeError', 'not a constructor')
        if f.bound is not None:
            return self.construct(f.bound[0], f.bound[2] + args)
        if f.derived:
            if f.node is None or f.node.get('type') == 'DefaultCtor':
                o = self.construct(f.proto, args, newtarget)
                self.initfields(o, f)
                return o
            r = self.invoke(f, TDZ, args, newtarget)
            if r is TDZ:
                self.throw('ReferenceError', 'Must call super constructor in derived class')
            return r
        o = Obj(self.get(newtarget, 'prototype'))
        self.initfields(o, f)
        if f.node.get('type') == 'DefaultCtor':
            return o
        r = self.invoke(f, o, args, newtarget)
        return r if isinstance(r, Obj) else o

    def initfields(self, o, f):
        if not f.fields:
            return
        for kind, key, val, env in f.fields:
            if kind == 'pm':                    # private method or accessor
                if o.priv is None:
                    o.priv = {}
                o.priv[key] = val
                continue
            e = Env(env, Fn(o, f, UNDEF, 0))
            v = self.ev(val, e) if val is not None else UNDEF
            if isinstance(v, Func) and 'name' not in v.props and isinstance(key, str):
                v.props['name'] = key
            if isinstance(key, PrivName):
                if o.priv is None:
                    o.priv = {}
                o.priv[key] = v
            else:
                o.props[key] = v

    # ------------------------------------------------------------ modules
    def module(self, m):
        if m in self.mods:
            return self.mods[m]
        from . import lib
        if m == 'sym':
            self.mods[m] = env = Env(None)
            env.v = dict(lib.symmod(self))
            self.exports[m] = {k: k for k in env.v}
            return env
        ast = self.p['modules'].get(m)
        if ast is None:
            self.unsup(f'module {m}')
        env = self.mods[m] = Env(self.genv, Fn(UNDEF, None, UNDEF, 0))
        exp = self.exports[m] = {}
        body = []
        for s in ast['body']:
            t = s['type']
            if t == 'ImportDeclaration':
                src = self.resolve(m, s['source']['value'])
                self.module(src)
                for sp in s['specifiers']:
                    n = sp['local']['name']
                    if sp['type'] == 'ImportSpecifier':
                        i = sp['imported']
                        env.v[n] = ImportRef(src, i.get('name', i.get('value')))
                    elif sp['type'] == 'ImportDefaultSpecifier':
                        env.v[n] = ImportRef(src, 'default')
                    else:
                        env.v[n] = ImportRef(src, '*')
            elif t == 'ExportAllDeclaration':
                src = self.resolve(m, s['source']['value'])
                self.module(src)
                for k in self.exports[src]:
                    if k != 'default':
                        exp.setdefault(k, ImportRef(src, k))
            elif t == 'ExportNamedDeclaration':
                if s.get('source'):
                    src = self.resolve(m, s['source']['value'])
                    self.module(src)
                    for sp in s['specifiers']:
                        exp[sp['exported']['name']] = ImportRef(src, sp['local']['name'])
                elif s.get('declaration'):
                    d = s['declaration']
                    if d['type'] == 'VariableDeclaration':
                        for v in d['declarations']:
                            for n in self.names(v['id']):
                                exp[n] = n
                    else:
                        exp[d['id']['name']] = d['id']['name']
                    body.append(d)
                else:
                    for sp in s['specifiers']:
                        exp[sp['exported']['name']] = sp['local']['name']
            elif t == 'ExportDefaultDeclaration':
                d = s['declaration']
                exp['default'] = '*default*'
                if d['type'] in ('FunctionDeclaration', 'ClassDeclaration') and d.get('id'):
                    exp['default'] = d['id']['name']
                    body.append(d)
                else:
                    body.append({'type': 'VariableDeclaration', 'kind': 'const', 'start': s['start'], 'declarations': [
                        {'type': 'VariableDeclarator', 'start': s['start'], 'id': {'type': 'Identifier', 'name': '*default*', 'start': 0}, 'init': d}]})
            else:
                body.append(s)
        self.hoist(body, env, True)
        for s in body:
            self.ex(s, env)
        return env

    def resolve(self, m, src):
        if src in ('sym', './sym', './sym.js'):
            return 'sym'
        r = self.p['resolve'].get(m, {}).get(src)
        if r is None:
            self.unsup(f'import of {src} from {m}')
        return r

    def export(self, m, n):
        if n == '*':
            o = self.newobj()
            for k in self.exports[m]:
                o.props[k] = self.export(m, k)
            return o
        e = self.exports[m].get(n)
        if e is None:
            self.unsup(f'{m} has no export {n}')
        if isinstance(e, ImportRef):
            return self.export(e.mod, e.name)
        v = self.mods[m].v[e]
        if isinstance(v, ImportRef):
            return self.export(v.mod, v.name)
        if v is TDZ:
            self.throw('ReferenceError', f'Cannot access {n} before initialization')
        return v

    # ------------------------------------------------------------ declarations
    def names(self, p):
        t = p['type']
        if t == 'Identifier':
            return [p['name']]
        if t == 'ObjectPattern':
            return [n for q in p['properties'] for n in self.names(q['argument'] if q['type'] == 'RestElement' else q['value'])]
        if t == 'ArrayPattern':
            return [n for q in p['elements'] if q for n in self.names(q)]
        if t == 'AssignmentPattern':
            return self.names(p['left'])
        if t == 'RestElement':
            return self.names(p['argument'])
        return []

    def vars(self, n, out):
        """var declarations under a statement"""
        t = n['type']
        if t == 'VariableDeclaration':
            if n['kind'] == 'var':
                for d in n['declarations']:
                    out += self.names(d['id'])
        elif t in ('BlockStatement',):
            for s in n['body']:
                self.vars(s, out)
        elif t == 'IfStatement':
            self.vars(n['consequent'], out)
            if n.get('alternate'):
                self.vars(n['alternate'], out)
        elif t in ('ForStatement', 'ForOfStatement', 'ForInStatement', 'WhileStatement', 'DoWhileStatement', 'LabeledStatement'):
            for k in ('init', 'left'):
                if n.get(k):
                    self.vars(n[k], out)
            self.vars(n['body'], out)
        elif t == 'TryStatement':
            self.vars(n['block'], out)
            if n.get('handler'):
                self.vars(n['handler']['body'], out)
            if n.get('finalizer'):
                self.vars(n['finalizer'], out)
        elif t == 'SwitchStatement':
            for c in n['cases']:
                for s in c['consequent']:
                    self.vars(s, out)

    def hoist(self, body, env, top=False):
        if top:
            out = []
            for s in body:
                self.vars(s, out)
            for n in out:
                if n not in env.v:
                    env.v[n] = UNDEF
        for s in body:
            t = s['type']
            if t == 'FunctionDeclaration':
                env.v[s['id']['name']] = self.func(s, env, 'normal', s['id']['name'])
            elif t == 'ClassDeclaration':
                env.v[s['id']['name']] = TDZ
            elif t == 'VariableDeclaration' and s['kind'] != 'var':
                for d in s['declarations']:
                    for n in self.names(d['id']):
                        env.v[n] = TDZ
                        if s['kind'] == 'const':
                            env.const = (env.const or set()) | {n}

    def func(self, node, env, kind, name='', home=None):
        f = Func(self.protos['Function'], node, env, kind, home)
        f.props['name'] = name
        if kind == 'normal':
            p = Obj(self.protos['Object'])
            p.props['constructor'] = f
            f.props['prototype'] = p
        return f

    def lookup(self, env, n):
        e = env
        while e is not None:
            if n in e.v:
                v = e.v[n]
                if v is TDZ:
                    self.throw('ReferenceError', f"Cannot access '{n}' before initialization")
                if isinstance(v, ImportRef):
                    return self.export(v.mod, v.name)
                return v
            e = e.up
        if n in self.globals:
            return self.globals[n]
        if n in KNOWN:
            self.unsup(f'global {n}')
        self.throw('ReferenceError', f'{n} is not defined')

    def assign(self, env, n, v):
        e = env
        while e is not None:
            if n in e.v:
                if e.v[n] is TDZ:
                    self.throw('ReferenceError', f"Cannot access '{n}' before initialization")
                if e.const and n in e.const:
                    self.throw('TypeError', 'Assignment to constant variable.')
                e.v[n] = v
                return
            e = e.up
        self.throw('ReferenceError', f'{n} is not defined')

    def bind(self, p, v, env, kind):
        """kind: let/const/var declarations initialise; None assigns"""
        t = p['type']
        if t == 'Identifier':
            if kind in ('let', 'const'):
                env.v[p['name']] = v
            else:
                self.assign(env, p['name'], v)
        elif t == 'AssignmentPattern':
            if v is UNDEF:
                v = self.named(p['right'], p['left'], env)
            self.bind(p['left'], v, env, kind)
        elif t == 'ArrayPattern':
            items = self.iterate(v)
            for i, q in enumerate(p['elements']):
                if q is None:
                    continue
                if q['type'] == 'RestElement':
                    self.bind(q['argument'], self.newarr(items[i:]), env, kind)
                else:
                    self.bind(q, items[i] if i < len(items) else UNDEF, env, kind)
        elif t == 'ObjectPattern':
            if v is UNDEF or v is NULL:
                self.throw('TypeError', 'Cannot destructure')
            used = []
            for q in p['properties']:
                if q['type'] == 'RestElement':
                    o = self.newobj()
                    o.props = {k: x for k, x in v.props.items() if k not in used}
                    self.bind(q['argument'], o, env, kind)
                    continue
                k = self.propkey(q, env)
                used.append(k)
                self.bind(q['value'], self.get(v, k), env, kind)
        elif t == 'MemberExpression':
            self.putref(p, env, v)
        else:
            self.unsup(f'pattern {t}')

    def named(self, node, target, env):
        v = self.ev(node, env)
        if isinstance(v, Func) and target['type'] == 'Identifier' and v.props.get('name') in ('', None):
            v.props['name'] = target['name']
        return v

    # ------------------------------------------------------------ statements
    def ex(self, n, env):
        st = self.st
        st.steps += 1
        self.stats.steps += 1
        if st.steps > self.STEP_LIMIT:
            raise PathEnd('bound', 'step limit')
        if (st.steps & 255) == 0 and self.deadline and time.time() > self.deadline:
            raise PathEnd('bound', 'time limit')
        self.node = n
        f = getattr(self, 's_' + n['type'], None)
        if f is None:
            self.unsup('statement ' + n['type'])
        f(n, env)

    def s_ExpressionStatement(self, n, env):
        self.ev(n['expression'], env)

    def s_EmptyStatement(self, n, env):
        pass

    def s_DebuggerStatement(self, n, env):
        pass

    def s_VariableDeclaration(self, n, env):
        for d in n['declarations']:
            if d.get('init') is None:
                if n['kind'] != 'var':
                    self.bind(d['id'], UNDEF, env, n['kind'])
                continue
            self.bind(d['id'], self.named(d['init'], d['id'], env), env, n['kind'])

    def s_FunctionDeclaration(self, n, env):
        pass

    def s_ClassDeclaration(self, n, env):
        env.v[n['id']['name']] = self.klass(n, env)

    def s_ReturnStatement(self, n, env):
        raise Ret(self.ev(n['argument'], env) if n.get('argument') else UNDEF)

    def block(self, body, env):
        e = Env(env)
        self.hoist(body, e)
        for s in body:
            self.ex(s, e)

    def s_BlockStatement(self, n, env):
        self.block(n['body'], env)

    def s_IfStatement(self, n, env):
        c = self.ev(n['test'], env)
        self.node = n
        if self.test(c):
            self.ex(n['consequent'], env)
        elif n.get('alternate'):
            self.ex(n['alternate'], env)

    def s_ThrowStatement(self, n, env):
        v = self.ev(n['argument'], env)
        e = JSThrow(v)
        e.where = self.where[-1] if self.where else '?'
        raise e

    def s_TryStatement(self, n, env):
        depth = len(self.where)
        try:
            try:
                self.s_BlockStatement(n['block'], env)
            except JSThrow as e:
                if not n.get('handler'):
                    raise
                h = n['handler']
                e2 = Env(env)
                if h.get('param'):
                    self.bind(h['param'], e.v, e2, 'let')
                self.block(h['body']['body'], e2)
        except (JSThrow, Ret, Brk, Cont):
            if n.get('finalizer'):
                self.s_BlockStatement(n['finalizer'], env)
            raise
        else:
            if n.get('finalizer'):
                self.s_BlockStatement(n['finalizer'], env)

    def loop(self, n, label, test, body, update=None, first=True):
        while True:
            self.node = n
            if first and not self.test(test()):
                return
            first = True
            try:
                body()
            except Brk as b:
                if b.label is None or b.label in label:
                    return
                raise
            except Cont as c:
                if c.label is not None and c.label not in label:
                    raise
            if update:
                update()
            self.st.steps += 1
            if self.st.steps > self.STEP_LIMIT:
                raise PathEnd('bound', 'step limit')

    def s_LabeledStatement(self, n, env, labels=()):
        b = n['body']
        labels = labels + (n['label']['name'],)
        if b['type'] == 'LabeledStatement':
            return self.s_LabeledStatement(b, env, labels)
        f = getattr(self, 's_' + b['type'])
        try:
            if b['type'] in ('ForStatement', 'WhileStatement', 'DoWhileStatement', 'ForOfStatement', 'ForInStatement'):
                f(b, env, labels)
            else:
                f(b, env)
        except Brk as e:
            if e.label not in labels:
                raise

    def s_WhileStatement(self, n, env, label=()):
        self.loop(n, label, lambda: self.ev(n['test'], env), lambda: self.ex(n['body'], env))

    def s_DoWhileStatement(self, n, env, label=()):
        self.loop(n, label, lambda: self.ev(n['test'], env), lambda: self.ex(n['body'], env), None, False)

    def s_ForStatement(self, n, env, label=()):
        e = [Env(env)]
        i = n.get('init')
        per = []
        if i:
            if i['type'] == 'VariableDeclaration':
                if i['kind'] != 'var':
                    self.hoist([i], e[0])
                    per = [x for d in i['declarations'] for x in self.names(d['id'])] if i['kind'] == 'let' else []
                self.ex(i, e[0])
            else:
                self.ev(i, e[0])

        def upd():
            if per:
                # each turn has its own variables
                x = Env(env)
                for k in per:
                    x.v[k] = e[0].v[k]
                e[0] = x
            if n.get('update'):
                self.ev(n['update'], e[0])
        self.loop(n, label, lambda: self.ev(n['test'], e[0]) if n.get('test') else True, lambda: self.ex(n['body'], e[0]), upd)

    def each(self, n, env, items, label):
        for v in items:
            e = Env(env)
            l = n['left']
            if l['type'] == 'VariableDeclaration':
                self.bind(l['declarations'][0]['id'], v, e if l['kind'] != 'var' else env, l['kind'])
            else:
                self.bind(l, v, env, None)
            try:
                self.ex(n['body'], e)
            except Brk as b:
                if b.label is None or b.label in label:
                    return
                raise
            except Cont as c:
                if c.label is not None and c.label not in label:
                    raise

    def s_ForOfStatement(self, n, env, label=()):
        v = self.ev(n['right'], env)
        if isinstance(v, View) and v.kind and not isc(v.n):
            return self.forview(n, env, v, label)
        self.each(n, env, self.iterate(v), label)

    def forview(self, n, env, v, label):
        from . import lib
        i = [0]

        def body():
            k = i[0]
            i[0] += 1
            e = Env(env)
            l = n['left']
            x = lib.vget(self, v, k)
            if l['type'] == 'VariableDeclaration':
                self.bind(l['declarations'][0]['id'], x, e if l['kind'] != 'var' else env, l['kind'])
            else:
                self.bind(l, x, env, None)
            self.ex(n['body'], e)
        self.loop(n, label, lambda: self.compare('<', i[0], self.fromt(v.n)), body)

    def s_ForInStatement(self, n, env, label=()):
        o = self.ev(n['right'], env)
        ks = []
        if isinstance(o, Arr):
            ks = [str(i) for i in range(len(o.a))]
        elif isinstance(o, Obj):
            ks = [k for k in o.props if isinstance(k, str)]
        self.each(n, env, ks, label)

    def s_BreakStatement(self, n, env):
        raise Brk(n['label']['name'] if n.get('label') else None)

    def s_ContinueStatement(self, n, env):
        raise Cont(n['label']['name'] if n.get('label') else None)

    def s_SwitchStatement(self, n, env):
        v = self.ev(n['discriminant'], env)
        e = Env(env)
        for c in n['cases']:
            self.hoist(c['consequent'], e)
        on = None
        for i, c in enumerate(n['cases']):
            if c.get('test') is None:
                continue
            t = self.ev(c['test'], e)
            self.node = c
            if self.test(self.equal(v, t)):
                on = i
                break
        if on is None:
            on = next((i for i, c in enumerate(n['cases']) if c.get('test') is None), None)
        if on is None:
            return
        try:
            for c in n['cases'][on:]:
                for s in c['consequent']:
                    self.ex(s, e)
        except Brk as b:
            if b.label is not None:
                raise

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        self.stats.steps += 1
        f = getattr(self, 'e_' + n['type'], None)
        if f is None:
            self.node = n
            self.unsup('expression ' + n['type'])
        return f(n, env)

    def e_Literal(self, n, env):
        if n.get('bigint') is not None:
            return Big(int(n['bigint'], 0))
        if n.get('regex') is not None:
            self.unsup('regular expression')
        v = n.get('value')
        if v is None:
            return NULL
        if isinstance(v, float):
            return num(v)
        return v

    def e_Identifier(self, n, env):
        if n['name'] == 'undefined':
            return UNDEF
        return self.lookup(env, n['name'])

    def e_TemplateLiteral(self, n, env):
        r = n['quasis'][0]['value']['cooked']
        for e, q in zip(n['expressions'], n['quasis'][1:]):
            r = self.concat(r, self.tostr(self.ev(e, env)))
            r = self.concat(r, q['value']['cooked'])
        return r

    def e_ThisExpression(self, n, env):
        t = env.fn.this if env.fn else UNDEF
        if t is TDZ:
            self.throw('ReferenceError', 'Must call super constructor before accessing this')
        return t

    def e_ParenthesizedExpression(self, n, env):
        return self.ev(n['expression'], env)

    def e_SequenceExpression(self, n, env):
        v = UNDEF
        for e in n['expressions']:
            v = self.ev(e, env)
        return v

    def e_ArrayExpression(self, n, env):
        return self.newarr(self.args(n['elements'], env))

    def args(self, es, env):
        out = []
        for e in es:
            if e is None:
                out.append(UNDEF)
            elif e['type'] == 'SpreadElement':
                out += self.iterate(self.ev(e['argument'], env))
            else:
                out.append(self.ev(e, env))
        return out

    def propkey(self, p, env):
        k = p['key']
        if p.get('computed'):
            return self.key(self.ev(k, env))
        if k['type'] == 'Identifier':
            return k['name']
        if k['type'] == 'Literal':
            return self.tostr(self.e_Literal(k, env))
        self.unsup('property key')

    def e_ObjectExpression(self, n, env):
        o = self.newobj()
        for p in n['properties']:
            if p['type'] == 'SpreadElement':
                v = self.ev(p['argument'], env)
                if isinstance(v, Obj):
                    for k in v.props:
                        o.props[k] = self.get(v, k)
                continue
            k = self.propkey(p, env)
            if isinstance(k, SInt):
                k = str(self.concretize_num(k, 'property key'))
            if p['kind'] == 'init':
                v = self.func(p['value'], env, 'method', k if isinstance(k, str) else '') if p.get('method') else self.ev(p['value'], env)
                if isinstance(v, Func) and v.props.get('name') == '' and isinstance(k, str):
                    v.props['name'] = k
                if k == '__proto__' and not p.get('computed') and not p.get('shorthand'):
                    o.proto = v if isinstance(v, Obj) else None
                    continue
                o.props[k] = v
            else:
                self.accessor(o, k, p['kind'], self.func(p['value'], env, 'method', k if isinstance(k, str) else ''))
        return o

    def accessor(self, o, k, kind, f):
        a = o.props.get(k)
        if not isinstance(a, Acc):
            a = Acc()
        else:
            a = Acc(a.get, a.set)
        setattr(a, kind, f)
        o.props[k] = a

    def e_FunctionExpression(self, n, env):
        if n.get('id'):
            e = Env(env)
            f = self.func(n, e, 'normal', n['id']['name'])
            e.v[n['id']['name']] = f
            return f
        return self.func(n, env, 'normal')

    def e_ArrowFunctionExpression(self, n, env):
        return self.func(n, env, 'arrow')

    def e_ClassExpression(self, n, env):
        return self.klass(n, env)

    def klass(self, n, env):
        e = Env(env)
        name = n['id']['name'] if n.get('id') else ''
        sup = None
        if n.get('superClass'):
            sup = self.ev(n['superClass'], env)
            if sup is not NULL and not isinstance(sup, (Func, Native)):
                self.throw('TypeError', 'Class extends value is not a constructor')
        body = n['body']['body']
        for m in body:
            k = m.get('key')
            if k and k['type'] == 'PrivateIdentifier':
                p = '#' + k['name']
                if p not in e.v:
                    e.v[p] = PrivName(p)
        ctor = next((m for m in body if m['type'] == 'MethodDefinition' and m['kind'] == 'constructor'), None)
        f = Func(self.protos['Function'], ctor['value'] if ctor else {'type': 'DefaultCtor', '_m': n.get('_m')}, e, 'class')
        f.props['name'] = name
        f.home = name or None
        proto = Obj(self.protos['Object'])
        if sup is NULL:
            proto.proto = None
        elif sup is not None:
            f.derived = True
            f.proto = sup
            proto.proto = self.get(sup, 'prototype')
        proto.props['constructor'] = f
        f.props['prototype'] = proto
        if name:
            e.v[name] = f
        fields, statics = [], []
        for m in body:
            t = m['type']
            if t == 'StaticBlock':
                statics.append(('block', None, m, e))
                continue
            if m is ctor:
                continue
            k = m['key']
            tgt = f if m.get('static') else proto
            if k['type'] == 'PrivateIdentifier':
                pn = e.v['#' + k['name']]
                if t == 'PropertyDefinition':
                    (statics if m.get('static') else fields).append(('f', pn, m.get('value'), e))
                else:
                    g = self.func(m['value'], e, 'method', '#' + k['name'], name)
                    g.env = self.homeenv(e, tgt)
                    lst = statics if m.get('static') else fields
                    if m['kind'] == 'method':
                        lst.insert(0, ('pm', pn, ('m', g), e))
                    else:
                        old = next((x for x in lst if x[0] == 'pm' and x[1] is pn), None)
                        a = old[2] if old else Acc()
                        setattr(a, m['kind'], g)
                        if not old:
                            lst.insert(0, ('pm', pn, a, e))
                continue
            key = self.propkey(m, env)
            if t == 'PropertyDefinition':
                (statics if m.get('static') else fields).append(('f', key, m.get('value'), e))
                continue
            g = self.func(m['value'], e, 'method', key if isinstance(key, str) else '', name)
            g.env = self.homeenv(e, tgt)
            if m['kind'] == 'method':
                tgt.props[key] = g
            else:
                self.accessor(tgt, key, m['kind'], g)
        if ctor:
            f.env = self.homeenv(e, proto)
        f.fields = fields
        for kind, key, val, ev in statics:
            e2 = Env(self.homeenv(ev, f), Fn(f, f, UNDEF, 0))
            if kind == 'block':
                self.block(val['body'], e2)
                continue
            if kind == 'pm':
                v = val
            else:
                v = self.ev(val, e2) if val is not None else UNDEF
            if isinstance(key, PrivName):
                if f.priv is None:
                    f.priv = {}
                f.priv[key] = v
            else:
                f.props[key] = v
        return f

    def homeenv(self, e, home):
        x = Env(e)
        x.v['*home*'] = home
        return x

    def priv(self, env, name):
        e = env
        while e is not None:
            if name in e.v:
                return e.v[name]
            e = e.up
        self.unsup('private name')

    def getpriv(self, o, p):
        if not isinstance(o, Obj) or o.priv is None or p not in o.priv:
            self.throw('TypeError', f'Cannot read private member {p.n} from an object whose class did not declare it')
        v = o.priv[p]
        if isinstance(v, tuple):
            return v[1]
        if isinstance(v, Acc):
            return self.call(v.get, o, []) if v.get else self.throw('TypeError', 'no getter')
        return v

    def setpriv(self, o, p, x):
        if not isinstance(o, Obj) or o.priv is None or p not in o.priv:
            self.throw('TypeError', f'Cannot write private member {p.n} to an object whose class did not declare it')
        v = o.priv[p]
        if isinstance(v, tuple):
            self.throw('TypeError', 'Private method is not writable')
        if isinstance(v, Acc):
            if not v.set:
                self.throw('TypeError', 'no setter')
            self.call(v.set, o, [x])
            return
        o.priv[p] = x

    SHORT = object()

    def member(self, n, env):
        """(object, key, this) of a member expression, its object evaluated"""
        if n['object']['type'] == 'Super':
            home = self.lookup(env, '*home*')
            o = home.proto if isinstance(home, Obj) else UNDEF
            this = self.e_ThisExpression(n, env)
        else:
            o = self.ev(n['object'], env)
            if o is self.SHORT:
                return o, None, None
            this = o
        if n.get('optional') and (o is UNDEF or o is NULL):
            return self.SHORT, None, None
        p = n['property']
        if p['type'] == 'PrivateIdentifier':
            return o, self.priv(env, '#' + p['name']), this
        if n.get('computed'):
            return o, self.ev(p, env), this
        return o, p['name'], this

    def getref(self, o, k, this):
        if isinstance(k, PrivName):
            return self.getpriv(o, k)
        if isinstance(k, str):
            return self.get(o, k, this) if this is not o else self.get(o, k)
        return self.getv(o, k)

    def e_MemberExpression(self, n, env):
        o, k, this = self.member(n, env)
        if o is self.SHORT:
            return o
        self.node = n
        return self.getref(o, k, this)

    def e_ChainExpression(self, n, env):
        v = self.ev(n['expression'], env)
        return UNDEF if v is self.SHORT else v

    def putref(self, n, env, v, ref=None):
        if n['type'] == 'Identifier':
            self.assign(env, n['name'], v)
            return
        o, k, this = ref or self.member(n, env)
        self.node = n
        if isinstance(k, PrivName):
            self.setpriv(o, k, v)
        elif n['object']['type'] == 'Super':
            self.set(this, self.key(k), v)
        elif isinstance(k, str):
            self.set(o, k, v)
        else:
            self.setv(o, k, v)

    def e_AssignmentExpression(self, n, env):
        op, l = n['operator'], n['left']
        if op == '=':
            if l['type'] in ('ObjectPattern', 'ArrayPattern'):
                v = self.ev(n['right'], env)
                self.bind(l, v, env, None)
                return v
            ref = self.member(l, env) if l['type'] == 'MemberExpression' else None
            v = self.named(n['right'], l, env)
            self.putref(l, env, v, ref)
            return v
        if l['type'] == 'Identifier':
            ref, old = None, self.lookup(env, l['name'])
        else:
            ref = self.member(l, env)
            old = self.getref(*ref)
        if op in ('&&=', '||=', '??='):
            self.node = n
            if op == '&&=':
                go = self.test(old)
            elif op == '||=':
                go = not self.test(old)
            else:
                go = old is UNDEF or old is NULL
            if not go:
                return old
            v = self.named(n['right'], l, env)
        else:
            r = self.ev(n['right'], env)
            self.node = n
            v = self.binary(op[:-1], old, r)
        self.putref(l, env, v, ref)
        return v

    def e_UpdateExpression(self, n, env):
        l = n['argument']
        if l['type'] == 'Identifier':
            ref, old = None, self.lookup(env, l['name'])
        else:
            ref = self.member(l, env)
            old = self.getref(*ref)
        op = n['operator'][0]
        if isinstance(old, Big):
            v = self.bigop(op, old, Big(1))
        else:
            old = self.tonum(old)
            v = self.arith(op, old, 1)
        self.putref(l, env, v, ref)
        return v if n['prefix'] else old

    def e_UnaryExpression(self, n, env):
        op, a = n['operator'], n['argument']
        if op == 'typeof':
            if a['type'] == 'Identifier' and a['name'] not in ('undefined',):
                e = env
                while e is not None and a['name'] not in e.v:
                    e = e.up
                if e is None and a['name'] not in self.globals:
                    return 'undefined'
            v = self.ev(a, env)
            if isnum(v):
                return 'number'
            if isinstance(v, Big):
                return 'bigint'
            if isbool(v):
                return 'boolean'
            if isstr(v):
                return 'string'
            if v is UNDEF:
                return 'undefined'
            if isinstance(v, (Func, Native)):
                return 'function'
            if isinstance(v, Symbol):
                return 'symbol'
            return 'object'
        if op == 'delete':
            if a['type'] == 'ChainExpression':
                a = a['expression']
            if a['type'] == 'MemberExpression':
                o, k, _ = self.member(a, env)
                if o is self.SHORT:
                    return True
                k = self.key(k)
                if isinstance(o, Obj) and not o.frozen:
                    o.props.pop(k, None)
                    return True
                self.unsup('delete')
            return True
        v = self.ev(a, env)
        self.node = n
        if op == '!':
            return self.neg(self.cond(v))
        if op == 'void':
            return UNDEF
        if isinstance(v, Obj):
            v = self.toprim(v, 'number')
        if op == '-':
            if isinstance(v, Big):
                return self.bigop('-', Big(0), v)
            v = self.tonum(v)
            if isinstance(v, SInt):
                if v.lo <= 0 <= v.hi and self.test(self.numeq(v, 0)):
                    return -0.0
                return self.arith('-', 0, v)
            if isinstance(v, Flt):
                w = v.w
                return Flt(z3.simplify(bv(v.b, w) ^ z3.BitVecVal(1 << (w - 1), w)), w)
            if isinstance(v, int):
                return -v if v else -0.0
            if isinstance(v, Rat):
                return Rat(self.arith('-', 0, v.n), v.d)
            return num(-v)
        if op == '+':
            if isinstance(v, Big):
                self.throw('TypeError', 'Cannot convert a BigInt value to a number')
            return self.tonum(v)
        if op == '~':
            if isinstance(v, Big):
                return self.bigop('-', self.bigop('-', Big(0), v), Big(1))
            v = self.toint(v, 's')
            if isinstance(v, int):
                return ~v
            return self.mk(~v.t, ~v.hi, ~v.lo)
        self.unsup('unary ' + op)

    def e_BinaryExpression(self, n, env):
        if n['left']['type'] == 'PrivateIdentifier':
            o = self.ev(n['right'], env)
            return isinstance(o, Obj) and o.priv is not None and self.priv(env, '#' + n['left']['name']) in o.priv
        x = self.ev(n['left'], env)
        y = self.ev(n['right'], env)
        self.node = n
        return self.binary(n['operator'], x, y)

    def e_LogicalExpression(self, n, env):
        x = self.ev(n['left'], env)
        op = n['operator']
        self.node = n
        if op == '??':
            return self.ev(n['right'], env) if x is UNDEF or x is NULL else x
        t = self.test(x)
        if op == '&&':
            if not t:
                return x if not isinstance(x, z3.BoolRef) else False
            return self.ev(n['right'], env)
        if t:
            return x if not isinstance(x, z3.BoolRef) else True
        return self.ev(n['right'], env)

    def e_ConditionalExpression(self, n, env):
        c = self.ev(n['test'], env)
        self.node = n
        return self.ev(n['consequent'] if self.test(c) else n['alternate'], env)

    def e_CallExpression(self, n, env):
        c = n['callee']
        if c['type'] == 'Super':
            fn = env.fn
            parent = fn.func.proto
            args = self.args(n['arguments'], env)
            if fn.this is not TDZ:
                self.throw('ReferenceError', 'Super constructor may only be called once')
            o = self.construct(parent, args, fn.newtarget)
            fn.this = o
            self.initfields(o, fn.func)
            return o
        if c['type'] == 'Import':
            self.unsup('dynamic import')
        if c['type'] == 'ChainExpression':
            c = c['expression']
        if c['type'] == 'ParenthesizedExpression':
            c = c['expression']
        if c['type'] == 'MemberExpression':
            o, k, this = self.member(c, env)
            if o is self.SHORT:
                return o
            self.node = n
            f = self.getref(o, k, this)
        else:
            f, this = self.ev(c, env), UNDEF
            if f is self.SHORT:
                return f
        if n.get('optional') and (f is UNDEF or f is NULL):
            return self.SHORT
        args = self.args(n['arguments'], env)
        self.node = n
        if not isinstance(f, (Func, Native)):
            what = c.get('property', {}).get('name') or c.get('name') or '?'
            if c['type'] == 'MemberExpression' and isinstance(o, Obj) and o.cls in ('Uint8Array', 'DataView', 'ArrayBuffer', 'Array', 'Map', 'Function') \
                    or c['type'] == 'MemberExpression' and not isinstance(o, Obj):
                self.unsup(f'{what} of {type(o).__name__}')
            self.throw('TypeError', f'{what} is not a function')
        return self.call(f, this, args)

    def e_NewExpression(self, n, env):
        f = self.ev(n['callee'], env)
        args = self.args(n['arguments'], env)
        self.node = n
        if not isinstance(f, (Func, Native)):
            self.throw('TypeError', 'not a constructor')
        return self.construct(f, args)

    def e_MetaProperty(self, n, env):
        if n['meta']['name'] == 'new':
            return env.fn.newtarget
        self.unsup('import.meta')


KNOWN = {'globalThis', 'Promise', 'Proxy', 'Reflect', 'WeakMap', 'WeakSet', 'WeakRef', 'Intl', 'Date', 'RegExp', 'process', 'Buffer', 'console', 'setTimeout',
         'structuredClone', 'queueMicrotask', 'require', 'module', 'exports', 'parseInt', 'parseFloat', 'encodeURIComponent', 'decodeURIComponent', 'escape',
         'unescape', 'atob', 'btoa', 'SharedArrayBuffer', 'Atomics', 'BigInt64Array', 'BigUint64Array', 'Function', 'eval', 'JSON', 'AggregateError'}
