"""A linear-integer view of the bit-vector constraints.

Every index term (length, capacity, offset) becomes an integer term that is
congruent to it modulo 2^w; with the recorded range of each variable the
translator knows when the two agree exactly.  Whatever is not linear becomes a
fresh unknown, so the view only ever has more models than the original: 'unsat'
carries over to the bit-vector constraints, 'sat' does not."""
import z3

IS = z3.IntSort()
EMPTY = frozenset()
CMP = {z3.Z3_OP_ULEQ: ('u', 'le'), z3.Z3_OP_ULT: ('u', 'lt'), z3.Z3_OP_UGEQ: ('u', 'ge'), z3.Z3_OP_UGT: ('u', 'gt'),
       z3.Z3_OP_SLEQ: ('s', 'le'), z3.Z3_OP_SLT: ('s', 'lt'), z3.Z3_OP_SGEQ: ('s', 'ge'), z3.Z3_OP_SGT: ('s', 'gt')}


class Lia:
    def __init__(self):
        self.bounds = {}      # variable name -> (lo, hi)
        self.orig = {}        # id of a simplified constraint -> the constraint it came from
        self.active = set()   # ids being translated
        self.keep = []
        self.ints = {}
        self.bools = {}
        self.bvs = {}
        self.idx = {}
        self.funs = {}
        self.n = 0
        self.bits = set()     # index variables whose bits are looked at
        self.dirty = False
        self.vars = {}

    def named(self, n, lo, hi):
        """the index variable n in [lo, hi]; another path may know the name with another range"""
        if self.bounds.get(n, (lo, hi)) != (lo, hi):
            n = f'{n}!{lo}!{hi}'
        v = z3.BitVec(n, 64)
        self.index(v, lo, hi)
        return v

    def index(self, v, lo, hi):
        n = v.decl().name()
        if self.bounds.setdefault(n, (lo, hi)) != (lo, hi):
            raise ValueError(f'two ranges for {n}')

    def note(self, simplified, original):
        i = simplified.get_id()
        if i not in self.orig:
            a = original.arg(0) if z3.is_not(original) else original
            if z3.is_and(a) or z3.is_or(a) or z3.is_implies(a):
                # the simplified form may be a part of the original
                if self.within(simplified, original):
                    return
            self.orig[i] = original
            self.keep.append(simplified)
            self.keep.append(original)

    def within(self, x, t):
        k = x.get_id()
        todo = [t]
        while todo:
            t = todo.pop()
            if t.get_id() == k:
                return True
            if z3.is_bool(t):
                todo += t.children()
        return False

    def hasidx(self, t):
        """does t mention an index variable (outside the argument of a memory read)?"""
        i = t.get_id()
        r = self.idx.get(i)
        if r is None:
            if t.num_args() == 0:
                r = t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in self.bounds
            elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r = self.hasidx(t.arg(0))
            else:
                r = any(self.hasidx(a) for a in t.children())
            self.idx[i] = r
            self.keep.append(t)
        return r

    def fresh(self, what, sort):
        self.n += 1
        return z3.Const(f'{what}~{self.n}', sort)

    # ---- integers: (E, lo, hi, deps)
    def opaque(self, t):
        i = ('o', t.get_id())
        r = self.ints.get(i)
        if r is None:
            v = self.fresh('o', IS)
            hi = (1 << t.size()) - 1
            ax = [self.ax(z3.And(v >= 0, v <= hi))]
            if self.single(t):
                n, = self.idxvars(t)
                x = z3.BitVec(n, 64)
                lo, hx = self.bounds[n]
                tt = z3.ZeroExt(64 - t.size(), t) if t.size() < 64 else t
                if lo >= 0:
                    ax.append(self.ax(z3.Implies(tt == x, v == z3.Int('i.' + n))))
            r = self.ints[i] = (v, 0, hi, frozenset(ax))
            self.keep.append(t)
        return r

    def ax(self, e):
        self.keep.append(e)
        return e

    def toint(self, t):
        i = t.get_id()
        r = self.ints.get(i)
        if r is None:
            r = self._toint(t)
            self.ints[i] = r
            self.keep.append(t)
        return r

    def _toint(self, t):
        if z3.is_bv_value(t):
            v = t.as_long()
            w = t.size()
            if v >= 1 << (w - 1) and w >= 32:
                v -= 1 << w
            return (z3.IntVal(v), v, v, EMPTY)
        k = t.decl().kind()
        w = t.size()
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
            n = t.decl().name()
            b = self.bounds.get(n)
            v = z3.Int('i.' + n)
            lo, hi = b if b else (0, (1 << w) - 1)
            return (v, lo, hi, frozenset([self.ax(z3.And(v >= lo, v <= hi))]))
        if k == z3.Z3_OP_BADD:
            parts = [self.toint(a) for a in t.children()]
            d = EMPTY
            for p in parts:
                d = d | p[3]
            return (z3.Sum([p[0] for p in parts]), sum(p[1] for p in parts), sum(p[2] for p in parts), d)
        if k == z3.Z3_OP_BSUB:
            a, b = self.toint(t.arg(0)), self.toint(t.arg(1))
            return (a[0] - b[0], a[1] - b[2], a[2] - b[1], a[3] | b[3])
        if k == z3.Z3_OP_BNEG:
            a = self.toint(t.arg(0))
            return (-a[0], -a[2], -a[1], a[3])
        if k == z3.Z3_OP_BNOT:
            a = self.toint(t.arg(0))
            return (-a[0] - 1, -a[2] - 1, -a[1] - 1, a[3])
        if k == z3.Z3_OP_BMUL and t.num_args() == 2 and (z3.is_bv_value(t.arg(0)) or z3.is_bv_value(t.arg(1))):
            x, y = t.children()
            if not z3.is_bv_value(x):
                x, y = y, x
            c = x.as_long()
            if c >= 1 << (w - 1):
                c -= 1 << w
            a = self.toint(y)
            lo, hi = sorted((a[1] * c, a[2] * c))
            return (a[0] * c, lo, hi, a[3])
        if k == z3.Z3_OP_ITE:
            c, dc = self.tobool(t.arg(0))
            a, b = self.toint(t.arg(1)), self.toint(t.arg(2))
            return (z3.If(c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), dc | a[3] | b[3])
        if k == z3.Z3_OP_ZERO_EXT:
            return self.unsigned(t.arg(0))
        if k == z3.Z3_OP_SIGN_EXT:
            return self.signed(t.arg(0))
        if k == z3.Z3_OP_CONCAT:
            # leading zeros, trailing zeros
            a = t.children()
            sh = 0
            while len(a) > 1 and z3.is_bv_value(a[-1]) and a[-1].as_long() == 0:
                sh += a[-1].size()
                a = a[:-1]
            while len(a) > 1 and z3.is_bv_value(a[0]) and a[0].as_long() == 0:
                a = a[1:]
            if len(a) == 1:
                e = self.unsigned(a[0])
                m = 1 << sh
                return (e[0] * m, e[1] * m, e[2] * m, e[3])
            return self.opaque(t)
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = t.decl().params()
            return self.shifted(t, t.arg(0), lo, hi - lo + 1)
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(t.arg(1)):
            return self.shifted(t, t.arg(0), t.arg(1).as_long(), w)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)):
            e = self.toint(t.arg(0))
            s = t.arg(1).as_long()
            if s < w:
                m = 1 << s
                return (e[0] * m, e[1] * m, e[2] * m, e[3])
        return self.opaque(t)

    def shifted(self, t, x, s, w):
        """floor(x / 2^s), when it is known to fit w bits"""
        if not self.hasidx(x) and not z3.is_bv_value(x):
            return self.opaque(t)
        if s == 0:
            e = self.toint(x)
            if w == x.size() or (0 <= e[1] and e[2] < 1 << w):
                return e
            # modulo 2^w both agree: keep the congruent term
            return e
        e = self.unsigned(x)
        m = 1 << s
        q = self.fresh('q', IS)
        lo, hi = e[1] >> s, e[2] >> s
        d = e[3] | frozenset([self.ax(z3.And(q * m <= e[0], e[0] < q * m + m, q >= lo, q <= hi))])
        return (q, lo, hi, d)

    def unsigned(self, t):
        E, lo, hi, d = self.toint(t)
        W = 1 << t.size()
        if lo == hi:
            lo %= W
            return (z3.IntVal(lo), lo, lo, d)
        if lo >= 0 and hi < W:
            return (E, lo, hi, d)
        if lo >= -W and hi < W:
            return (z3.If(E < 0, E + W, E), 0, W - 1, d)
        if lo >= 0 and hi < 2 * W:
            return (z3.If(E >= W, E - W, E), 0, W - 1, d)
        if lo >= -W and hi < 2 * W:
            return (z3.If(E < 0, E + W, z3.If(E >= W, E - W, E)), 0, W - 1, d)
        return self.opaque(t)

    def signed(self, t):
        E, lo, hi, d = self.toint(t)
        W = 1 << t.size()
        h = W >> 1
        if lo >= -h and hi < h:
            return (E, lo, hi, d)
        E, lo, hi, d = self.unsigned(t)
        return (z3.If(E >= h, E - W, E), -h, h - 1, d)

    # ---- other bit-vectors
    def tobv(self, t):
        i = t.get_id()
        r = self.bvs.get(i)
        if r is None:
            r = self._tobv(t)
            self.bvs[i] = r
            self.keep.append(t)
        return r

    def _tobv(self, t):
        if t.num_args() == 0:
            return (t, EMPTY)
        k = t.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            f = self.funs.get(n)
            if f is None:
                f = self.funs[n] = z3.Function('i.' + n, IS, t.sort())
            e = self.unsigned(t.arg(0))
            return (f(e[0]), e[3])
        if k == z3.Z3_OP_ITE:
            c, dc = self.tobool(t.arg(0))
            a, da = self.tobv(t.arg(1))
            b, db = self.tobv(t.arg(2))
            return (z3.If(c, a, b), dc | da | db)
        if not self.hasidx(t) and not self.hasfun(t):
            return (t, EMPTY)
        ch = [self.tobv(a) if z3.is_bv(a) else None for a in t.children()]
        if any(c is None for c in ch):
            return (self.fresh('b', t.sort()), EMPTY)
        if not self.hasfun(t):
            v = self.idxvars(t)
            if len(v) == 1:
                self.flag(t)
                return (t, EMPTY)
            if k in (z3.Z3_OP_EXTRACT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
                # bits of a sum of lengths: one unknown per term
                return (self.fresh('b', t.sort()), EMPTY)
        d = EMPTY
        for c in ch:
            d = d | c[1]
        return (t.decl()(*[c[0] for c in ch]), d)

    def idxvars(self, t):
        """the index variables mentioned outside memory reads"""
        i = t.get_id()
        r = self.vars.get(i)
        if r is None:
            r = EMPTY
            if t.num_args() == 0:
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in self.bounds:
                    r = frozenset([t.decl().name()])
            elif t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                for a in t.children():
                    r = r | self.idxvars(a)
            self.vars[i] = r
            self.keep.append(t)
        return r

    def idxvar(self, t):
        return bool(self.idxvars(t))

    def flag(self, t):
        new = self.idxvars(t) - self.bits
        if new:
            self.bits |= new
            self.bools = {}
            self.bvs = {}
            self.ints = {k: v for k, v in self.ints.items() if v[3] is not None and isinstance(k, tuple)}
            self.dirty = True

    def single(self, t):
        """t is about one index variable whose bits matter, and no memory"""
        v = self.idxvars(t)
        return len(v) == 1 and v <= self.bits and not self.hasfun(t)

    def hasfun(self, t):
        i = ('f', t.get_id())
        r = self.idx.get(i)
        if r is None:
            if t.num_args() == 0:
                r = False
            elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r = True
            else:
                r = any(self.hasfun(a) for a in t.children())
            self.idx[i] = r
            self.keep.append(t)
        return r

    # ---- conditions
    def tobool(self, c):
        i = c.get_id()
        r = self.bools.get(i)
        if r is None:
            # the form before simplification, unless that contains c itself
            o = self.orig.get(i) if i not in self.active else None
            c0 = c if o is None else o
            self.active.add(i)
            r = self._tobool(c0)
            self.active.discard(i)
            if c0.num_args() == 2 and (c0.decl().kind() in CMP or c0.decl().kind() == z3.Z3_OP_EQ) and z3.is_bv(c0.arg(0)):
                r = self.link(c0, r)
            self.bools[i] = r
            self.keep.append(c)
        return r

    def exact(self, c):
        """does the translation of c say all that c says?"""
        c = self.orig.get(c.get_id(), c)
        while c.decl().kind() == z3.Z3_OP_NOT:
            c = c.arg(0)
        v = self.idxvars(c)
        if v & self.bits:
            return False
        return bool(v) or not self.hasfun(c)

    def link(self, c, r):
        """state an atom in both views when both say something"""
        a, b = c.children()
        if a.size() < 32:
            return r
        v = self.idxvars(c)
        if v:
            if self.single(c):
                return (r[0], r[1] | frozenset([self.ax(r[0] == c)]))
            return r
        if self.hasfun(c) and (z3.is_bv_value(a) or z3.is_bv_value(b)):
            k = c.decl().kind()
            if k == z3.Z3_OP_EQ:
                x, y = self.unsigned(a), self.unsigned(b)
                e = x[0] == y[0]
            else:
                sg, op = CMP[k]
                f = self.unsigned if sg == 'u' else self.signed
                x, y = f(a), f(b)
                e = {'le': x[0] <= y[0], 'lt': x[0] < y[0], 'ge': x[0] >= y[0], 'gt': x[0] > y[0]}[op]
            return (r[0], r[1] | x[3] | y[3] | frozenset([self.ax(r[0] == e)]))
        return r

    def _tobool(self, c):
        k = c.decl().kind()
        if c.num_args() == 0:
            return (c, EMPTY)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or \
                (k in (z3.Z3_OP_EQ, z3.Z3_OP_ITE, z3.Z3_OP_DISTINCT, z3.Z3_OP_IFF) and z3.is_bool(c.arg(c.num_args() - 1))):
            ch = [self.tobool(a) for a in c.children()]
            d = EMPTY
            for x in ch:
                d = d | x[1]
            e = [x[0] for x in ch]
            if k == z3.Z3_OP_AND:
                return (z3.And(e), d)
            if k == z3.Z3_OP_OR:
                return (z3.Or(e), d)
            if k == z3.Z3_OP_NOT:
                return (z3.Not(e[0]), d)
            return (c.decl()(*e), d)
        if k == z3.Z3_OP_EQ or (k == z3.Z3_OP_DISTINCT and c.num_args() == 2):
            a, b = c.children()
            if not z3.is_bv(a):
                return (self.fresh('p', z3.BoolSort()), EMPTY)
            if a.size() > 16 and (self.idxvar(a) or self.idxvar(b)):
                w = a.size()
                x, y = self.toint(a), self.toint(b)
                W = 1 << w
                lo, hi = x[1] - y[2], x[2] - y[1]
                if -W < lo and hi < W:
                    e = x[0] == y[0]
                    d = x[3] | y[3]
                else:
                    x, y = self.unsigned(a), self.unsigned(b)
                    e = x[0] == y[0]
                    d = x[3] | y[3]
            else:
                x, y = self.tobv(a), self.tobv(b)
                e = x[0] == y[0]
                d = x[1] | y[1]
            return (z3.Not(e) if k == z3.Z3_OP_DISTINCT else e, d)
        if k in CMP:
            a, b = c.children()
            sg, op = CMP[k]
            if a.size() > 16 and (self.idxvar(a) or self.idxvar(b)):
                x = self.unsigned(a) if sg == 'u' else self.signed(a)
                y = self.unsigned(b) if sg == 'u' else self.signed(b)
                d = x[3] | y[3]
                x, y = x[0], y[0]
                return ({'le': x <= y, 'lt': x < y, 'ge': x >= y, 'gt': x > y}[op], d)
            x, y = self.tobv(a), self.tobv(b)
            return (c.decl()(x[0], y[0]), x[1] | y[1])
        if not self.hasidx(c) and not self.hasfun(c):
            return (c, EMPTY)
        return (self.fresh('p', z3.BoolSort()), EMPTY)
