"""JavaScript values as the executor sees them."""
import math
import z3

M64 = (1 << 64) - 1
BW = 160                       # width in which symbolic BigInts are computed


class Undef:
    def __repr__(self):
        return 'undefined'

    def __bool__(self):
        return False


class Null:
    def __repr__(self):
        return 'null'

    def __bool__(self):
        return False


UNDEF, NULL = Undef(), Null()


class SInt:
    """a number known to be an integer in [lo, hi], as a 64-bit two's complement term"""
    __slots__ = ('t', 'lo', 'hi')

    def __init__(self, t, lo, hi):
        self.t, self.lo, self.hi = t, lo, hi

    def __repr__(self):
        return f'SInt[{self.lo},{self.hi}]'


class Rat:
    """an integer divided by a positive constant, before it is rounded"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n, self.d = n, d


class Flt:
    """a number given by its IEEE-754 bits (w = 32: a double that is exactly this float)"""
    __slots__ = ('b', 'w')

    def __init__(self, b, w):
        self.b, self.w = b, w


class Big:
    """a BigInt: v is a Python int or a term of BW bits"""
    __slots__ = ('v', 'lo', 'hi')

    def __init__(self, v, lo=None, hi=None):
        self.v = v
        self.lo, self.hi = (v, v) if isinstance(v, int) else (lo, hi)

    def __repr__(self):
        return f'Big({self.v if isinstance(self.v, int) else "sym"})'


class SStr:
    """well-formed text given by its UTF-8 bytes"""
    __slots__ = ('mem', 'off', 'n', 'u16')

    def __init__(self, mem, off, n):
        self.mem, self.off, self.n = mem, off, n
        self.u16 = None


class OStr:
    """text of which nothing is known"""
    __slots__ = ()


class Symbol:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d


class Acc:
    """an accessor property"""
    __slots__ = ('get', 'set')

    def __init__(self, get=None, set=None):
        self.get, self.set = get, set


class Obj:
    cls = 'Object'

    def __init__(self, proto=None):
        self.proto = proto
        self.props = {}
        self.priv = None
        self.frozen = False


class Arr(Obj):
    cls = 'Array'

    def __init__(self, proto, items):
        super().__init__(proto)
        self.a = items


class MapObj(Obj):
    """Map (v: {key: (key, value)}) or Set"""
    cls = 'Map'

    def __init__(self, proto, isset):
        super().__init__(proto)
        self.m = {}
        self.isset = isset


class Func(Obj):
    cls = 'Function'

    def __init__(self, proto, node, env, kind, home=None):
        super().__init__(proto)
        self.node, self.env, self.kind, self.home = node, env, kind, home
        self.fields = None     # class field initialisers
        self.derived = False
        self.bound = None


class Native(Obj):
    cls = 'Function'

    def __init__(self, proto, name, fn, ctor=None):
        super().__init__(proto)
        self.name, self.fn, self.ctor = name, fn, ctor


class Buf(Obj):
    """an ArrayBuffer"""
    cls = 'ArrayBuffer'

    def __init__(self, proto, mem, n):
        super().__init__(proto)
        self.mem, self.n = mem, n


class View(Obj):
    """a typed array (off, n in bytes resp. elements) or a DataView (kind None)"""

    def __init__(self, proto, buf, off, n, kind):
        super().__init__(proto)
        self.buf, self.off, self.n, self.kind = buf, off, n, kind

    @property
    def cls(self):
        return self.kind or 'DataView'


class JSThrow(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    def __init__(self, label=None):
        self.label = label


class Cont(Exception):
    def __init__(self, label=None):
        self.label = label


class Ret(Exception):
    def __init__(self, v):
        self.v = v


def num(x):
    """a concrete number in its one representation"""
    if isinstance(x, float) and x == math.floor(x) and abs(x) < 2 ** 1000 and not (x == 0 and math.copysign(1, x) < 0) if isinstance(x, float) and math.isfinite(x) else False:
        return int(x) if abs(x) <= 2 ** 53 else x
    return x


def isnum(v):
    return isinstance(v, (int, float, SInt, Rat, Flt)) and not isinstance(v, bool)


def isbool(v):
    return isinstance(v, (bool, z3.BoolRef))


def isstr(v):
    return isinstance(v, (str, SStr, OStr))


def iscint(v):
    return isinstance(v, int) and not isinstance(v, bool)
