"""Byte memories of unbounded symbolic size: a base plus a chain of stores and
range copies.  Indices are 64-bit; Python ints are used wherever a value is
concrete, z3 bit-vectors elsewhere."""
import z3

M64 = (1 << 64) - 1
_keep = []


def isc(x):
    return isinstance(x, int)


def bv(x, w=64):
    return z3.BitVecVal(x, w) if isinstance(x, int) else x


def simp(x):
    r = z3.simplify(x)
    if z3.is_bv_value(r):
        return r.as_long()
    return r


def add(a, b):
    if isc(a) and isc(b):
        return (a + b) & M64
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    return simp(bv(a) + bv(b))


def sub(a, b):
    if isc(a) and isc(b):
        return (a - b) & M64
    if isc(b) and b == 0:
        return a
    return simp(bv(a) - bv(b))


def key(x):
    if isc(x):
        return x
    _keep.append(x)
    return ('z', x.get_id())


def eq_(a, b):
    """a == b as Python bool or z3 Bool."""
    d = sub(a, b)
    if isc(d):
        return d == 0
    return bv(a) == bv(b)


def ult_(a, b, w=64):
    if isc(a) and isc(b):
        return a < b
    if isc(b) and b == 0:
        return False
    c = z3.ULT(bv(a, w), bv(b, w))
    r = z3.simplify(c)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return c


def ite(c, a, b, w=8):
    if c is True:
        return a
    if c is False:
        return b
    if isc(a) and isc(b) and a == b:
        return a
    return z3.If(c, bv(a, w), bv(b, w))


class Node:
    __slots__ = ('k', 'prev', 'a', 'b', 'c', 'd', 'cache')

    def __init__(self, k, prev=None, a=None, b=None, c=None, d=None):
        self.k, self.prev, self.a, self.b, self.c, self.d = k, prev, a, b, c, d
        self.cache = None


ZERO = Node('zero')


def lit(bs):
    return Node('lit', a=bytes(bs))


def arr(name):
    return Node('arr', a=z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(8)))


def store(prev, idx, val):
    # overwrite at the same index
    if prev.k == 'st':
        d = sub(prev.a, idx)
        if isc(d) and d == 0:
            prev = prev.prev
    return Node('st', prev, idx, val)


def copy(prev, dst, src, soff, n):
    if isc(n) and n == 0:
        return prev
    if isc(n) and n <= 64 and (isc(dst) or n <= 16):
        vals = [readp(src, add(soff, i)) for i in range(n)]
        for i, v in enumerate(vals):
            prev = store(prev, add(dst, i), v)
        return prev
    return Node('cp', prev, dst, src, soff, n)


def xorrange(prev, lo, n):
    return Node('xor', prev, lo, n)


def fill(prev, lo, n, val):
    """every byte of [lo,lo+n) becomes val"""
    return Node('fill', prev, lo, n, val)


def read(node, idx):
    k = key(idx)
    if node.cache is None:
        node.cache = {}
    elif k in node.cache:
        return node.cache[k]
    conds = []
    cur = node
    while True:
        if cur is not node and cur.cache is not None and k in cur.cache:
            res = cur.cache[k]
            break
        kk = cur.k
        if kk == 'zero':
            res = 0
            break
        if kk == 'lit':
            b = cur.a
            if isc(idx):
                res = b[idx] if idx < len(b) else 0
            else:
                # balanced read of a literal
                res = 0
                for i, x in enumerate(b):
                    res = ite(eq_(idx, i), x, res)
            break
        if kk == 'arr':
            res = cur.a(bv(idx))
            break
        if kk == 'st':
            c = eq_(idx, cur.a)
            if c is True:
                res = cur.b
                break
            if c is not False:
                conds.append((c, cur.b))
            cur = cur.prev
            continue
        rel = sub(idx, cur.a)
        if kk == 'cp':
            c = ult_(rel, cur.d)
            if c is True:
                res = read(cur.b, add(cur.c, rel))
                break
            if c is not False:
                conds.append((c, read(cur.b, add(cur.c, rel))))
            cur = cur.prev
            continue
        if kk == 'xor':
            c = ult_(rel, cur.b)
            p = read(cur.prev, idx)
            if c is False:
                res = p
            else:
                x = (p ^ 0xff) if isc(p) else ~p
                res = ite(c, x, p)
            break
        if kk == 'fill':
            c = ult_(rel, cur.b)
            if c is True:
                res = cur.c
                break
            if c is not False:
                conds.append((c, cur.c))
            cur = cur.prev
            continue
        raise AssertionError(kk)
    for c, v in reversed(conds):
        res = ite(c, v, res)
    node.cache[k] = res
    return res


DECIDE = None


def readp(node, idx):
    """read on the current path: conditions the path decides are resolved"""
    if DECIDE is None:
        return read(node, idx)
    conds = []
    cur = node
    while True:
        kk = cur.k
        if kk in ('zero', 'lit', 'arr'):
            res = read(cur, idx)
            break
        if kk == 'st':
            c = eq_(idx, cur.a)
        else:
            rel = sub(idx, cur.a)
            c = ult_(rel, cur.d if kk == 'cp' else cur.b)
        if c is not True and c is not False:
            d = DECIDE(c)
            if d is not None:
                c = d
        if c is False:
            cur = cur.prev
            continue
        if kk == 'xor':
            p = readp(cur.prev, idx)
            x = (p ^ 0xff) if isc(p) else ~p
            res = x if c is True else ite(c, x, p)
            break
        if kk == 'st':
            v = cur.b
        elif kk == 'cp':
            v = readp(cur.b, add(cur.c, rel))
        else:
            v = cur.c
        if c is True:
            res = v
            break
        conds.append((c, v))
        cur = cur.prev
    for c, v in reversed(conds):
        res = ite(c, v, res)
    return res
