"""A reader for LLVM textual IR: functions and globals are parsed on first use."""
import re, struct

TOK = re.compile(r'''\s*(?:
    (?P<cstr>c"(?:[^"])*")|
    (?P<str>"[^"]*")|
    (?P<glob>@(?:"[^"]+"|[\w.$-]+))|
    (?P<loc>%(?:"[^"]+"|[\w.$-]+))|
    (?P<meta>!(?:"[^"]*"|[\w.$-]+)?)|
    (?P<attr>\#\d+)|
    (?P<fp>-?\d+\.\d+(?:e[+-]?\d+)?|f?0x[KLMHR]?[0-9A-Fa-f]+|[+-](?:inf|qnan|nan|snan)(?:\(0x[0-9A-Fa-f]+\))?)|
    (?P<num>-?\d+)|
    (?P<word>[\w.$-]+)|
    (?P<dots>\.\.\.)|
    (?P<p><\{|\}>|[(){}\[\]<>,=*|:])
)''', re.X)


def tokens(s):
    if '/*' in s:
        s = re.sub(r'/\*[^*]*\*/', '', s)
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if not s[i:].strip():
                break
            raise SyntaxError('cannot read: ' + s[i:i + 80])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    out.append(('end', ''))
    return out


# types: ('i', w) ('ptr',) ('f', w) ('void',) ('s', packed, (types)) ('a', n, t) ('v', n, t) ('fn',) ('x', name)
PTR, VOID = ('ptr',), ('void',)


def size_align(t):
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        p = 1
        while p < b:
            p *= 2
        a = min(p, 16)
        return ((b + a - 1) // a * a, a)
    if k == 'ptr':
        return 8, 8
    if k == 'f':
        return t[1] // 8, t[1] // 8
    if k == 'a':
        s, a = size_align(t[2])
        return s * t[1], a
    if k == 'v':
        s, a = size_align(t[2])
        return s * t[1], s * t[1]
    if k == 's':
        off, al = 0, 1
        for x in t[2]:
            s, a = size_align(x)
            if not t[1]:
                off = (off + a - 1) // a * a
                al = max(al, a)
            off += s
        off = (off + al - 1) // al * al
        return off, al
    raise ValueError('size of ' + repr(t))


def field_off(t, i):
    off = 0
    for j, x in enumerate(t[2]):
        s, a = size_align(x)
        if not t[1]:
            off = (off + a - 1) // a * a
        if j == i:
            return off, x
        off += s
    raise IndexError


def elem(t, i):
    if t[0] == 's':
        return t[2][i]
    return t[2]


RET_ATTR = {'noundef', 'zeroext', 'signext', 'inreg', 'noalias', 'nonnull', 'nofree', 'readonly', 'readnone', 'writeonly', 'returned', 'nocapture',
            'immarg', 'nest', 'noext', 'dead_on_unwind', 'writable', 'allocalign', 'allocptr', 'swiftself', 'swifterror', 'dead_on_return', 'noalias'}
PAREN_ATTR = {'align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'captures', 'sret', 'byval', 'initializes', 'byref', 'inalloca',
              'preallocated', 'nofpclass', 'elementtype', 'memory', 'alignstack'}
LINK = {'private', 'internal', 'external', 'hidden', 'weak', 'weak_odr', 'linkonce', 'linkonce_odr', 'common', 'appending', 'extern_weak', 'protected',
        'default', 'dso_local', 'dso_preemptable', 'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'available_externally', 'externally_initialized'}
CC = {'fastcc', 'coldcc', 'ccc', 'tailcc', 'preserve_mostcc', 'preserve_allcc', 'rustcc', 'preserve_nonecc'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'nusw', 'disjoint', 'nneg', 'samesign', 'volatile', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inrange'}


class P:
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self):
        return self.t[self.i][1]

    def kind(self):
        return self.t[self.i][0]

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def at(self, v):
        if self.t[self.i][1] == v and self.t[self.i][0] not in ('str', 'cstr'):
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.at(v):
            raise SyntaxError(f'expected {v} at {[x[1] for x in self.t[max(0, self.i - 6):self.i + 6]]}')

    def balanced(self):
        """skip ( ... )"""
        self.need('(')
        d = 1
        while d:
            x = self.next()
            k = self.t[self.i - 1][0]
            if k == 'end':
                raise SyntaxError('unbalanced')
            if k == 'p':
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1

    def attrs(self):
        while True:
            w = self.peek()
            k = self.kind()
            if k == 'attr':
                self.next()
            elif k == 'word' and w in PAREN_ATTR:
                self.next()
                if self.peek() == '(':
                    self.balanced()
                elif w == 'align':
                    self.next()
            elif k == 'word' and w in RET_ATTR:
                self.next()
            elif k == 'str':
                self.next()
                if self.at('='):
                    self.next()
            else:
                return

    def type(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            elif v == 'ptr':
                t = PTR
                if self.at('addrspace'):
                    self.balanced()
            elif v == 'void':
                t = VOID
            elif v in ('float', 'double', 'half', 'fp128', 'x86_fp80'):
                t = ('f', {'float': 32, 'double': 64, 'half': 16, 'fp128': 128, 'x86_fp80': 128}[v])
            else:
                t = ('x', v)
        elif v == '{' or v == '<{':
            close = '}' if v == '{' else '}>'
            ts = []
            while not self.at(close):
                ts.append(self.type())
                self.at(',')
            t = ('s', v == '<{', tuple(ts))
        elif v == '[' or v == '<':
            n = int(self.next())
            if self.next() != 'x':
                raise SyntaxError('array type')
            e = self.type()
            self.need(']' if v == '[' else '>')
            t = ('a' if v == '[' else 'v', n, e)
        elif k == 'loc':
            t = self.m.named(v)
        else:
            raise SyntaxError(f'type at {v}: {[x[1] for x in self.t[max(0, self.i - 6):self.i + 6]]}')
        if self.peek() == '(' and self.kind() == 'p' and self.fnok:
            self.balanced()
            t = ('fn', t)
        return t

    fnok = False

    def ftype(self):
        self.fnok = True
        try:
            return self.type()
        finally:
            self.fnok = False

    # values: ('r', slot-name) ('c', int) ('g', name) ('u',) undef ('z',) zero ('agg', [(t, v)]) ('bytes', b) ('ce', op, ...)
    def value(self, t):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'loc':
            return ('r', v)
        if k == 'num':
            w = t[1] if t[0] == 'i' else 64
            return ('c', int(v) & ((1 << w) - 1))
        if k == 'fp':
            if v.startswith('f0x'):
                return ('c', int(v[3:], 16))
            if 'inf' in v or 'nan' in v:
                if '(' in v:
                    raise SyntaxError('nan payload')
                d = float(v.replace('qnan', 'nan').replace('snan', 'nan'))
                b = struct.unpack('>Q', struct.pack('>d', d))[0]
                return ('c', b if t[1] == 64 else self.f32(d, b))
            if v.startswith('0x'):
                b = int(v[2:].lstrip('KLMHR'), 16)
                d = struct.unpack('>d', struct.pack('>Q', b))[0]
                return ('c', b if t[1] == 64 else self.f32(d, b))
            d = float(v)
            b = struct.unpack('>Q', struct.pack('>d', d))[0]
            return ('c', b if t[1] == 64 else self.f32(d, b))
        if k == 'glob':
            return ('g', v[1:].strip('"'))
        if k == 'cstr':
            b = re.sub(rb'\\([0-9A-Fa-f]{2})', lambda m: bytes([int(m.group(1), 16)]), v[2:-1].encode('latin1'))
            return ('bytes', b)
        if v in ('true', 'false'):
            return ('c', v == 'true')
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('u',)
        if v == 'splat':
            self.need('(')
            tt = self.type()
            x = self.value(tt)
            self.need(')')
            return ('agg', [(tt, x)] * t[1])
        if v == 'zeroinitializer':
            return ('z',)
        if v in ('{', '<{', '[', '<'):
            close = {'{': '}', '<{': '}>', '[': ']', '<': '>'}[v]
            xs = []
            while not self.at(close):
                tt = self.type()
                xs.append((tt, self.value(tt)))
                self.at(',')
            return ('agg', xs)
        if v == 'getelementptr':
            while self.peek() in FLAGS:
                if self.next() == 'inrange':
                    self.balanced()
            self.need('(')
            et = self.type()
            ops = []
            while not self.at(')'):
                self.need(',')
                tt = self.type()
                ops.append((tt, self.value(tt)))
            return ('ce', 'gep', et, ops)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'addrspacecast', 'ptrtoaddr'):
            self.need('(')
            tt = self.type()
            x = self.value(tt)
            self.need('to')
            t2 = self.type()
            self.need(')')
            return ('ce', v, tt, x, t2)
        if v in ('add', 'sub', 'xor', 'mul'):
            while self.peek() in FLAGS:
                self.next()
            self.need('(')
            tt = self.type()
            a = self.value(tt)
            self.need(',')
            tt = self.type()
            b = self.value(tt)
            self.need(')')
            return ('ce', v, tt, a, b)
        if v == 'metadata' or k == 'meta':
            return ('u',)
        if v == 'asm':
            return ('asm',)
        raise SyntaxError(f'value {v} at {[x[1] for x in self.t[max(0, self.i - 6):self.i + 6]]}')

    def f32(self, d, b):
        if d != d:
            # NaN: keep the payload's upper bits
            s = b >> 63
            return (s << 31) | (0xff << 23) | ((b >> 29) & 0x7fffff)
        return struct.unpack('>I', struct.pack('>f', d))[0]

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


class Module:
    def __init__(self, path):
        self.text = open(path, encoding='latin1').read()
        self.defs, self.decls, self.globs, self.types, self.groups = {}, {}, {}, {}, {}
        self.cache, self.gcache = {}, {}
        pos = 0
        t = self.text
        for m in re.finditer(r'^(define|declare|@|%|attributes )', t, re.M):
            if m.start() < pos:
                continue
            w = m.group(1)
            eol = t.index('\n', m.start())
            line = t[m.start():eol]
            if w == 'define':
                end = t.index('\n}', m.start()) + 2
                n = re.search(r'@("[^"]+"|[\w.$-]+)\(', line).group(1).strip('"')
                self.defs[n] = (m.start(), end)
                pos = end
            elif w == 'declare':
                n = re.search(r'@("[^"]+"|[\w.$-]+)\(', line).group(1).strip('"')
                self.decls[n] = line
            elif w == '@':
                n = re.match(r'@("[^"]+"|[\w.$-]+) =', line)
                if n:
                    self.globs[n.group(1).strip('"')] = (m.start(), eol)
            elif w == '%':
                n = re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = type (.*)', line)
                if n:
                    self.types[n.group(1)] = n.group(2)
            else:
                n = re.match(r'attributes (#\d+) = \{(.*)\}', line)
                if n:
                    self.groups[n.group(1)] = n.group(2)

    def named(self, v):
        return P(self, tokens(self.types[v])).type()

    def noreturn(self, name):
        if name in self.decls:
            line = self.decls[name]
        elif name in self.defs:
            a, b = self.defs[name]
            line = self.text[a:self.text.index('\n', a)]
        else:
            return False
        if ' noreturn' in line:
            return True
        return any(' noreturn ' in ' ' + self.groups.get(g, '') + ' ' for g in re.findall(r'#\d+', line))

    def global_(self, name):
        """(type, initialiser or None, constant?)"""
        if name in self.gcache:
            return self.gcache[name]
        a, b = self.globs[name]
        line = self.text[a:b]
        p = P(self, tokens(line))
        p.next()
        p.need('=')
        const = False
        while True:
            w = p.peek()
            if w in LINK:
                p.next()
                if w == 'thread_local' and p.peek() == '(':
                    p.balanced()
            elif w == 'addrspace':
                p.next()
                p.balanced()
            elif w in ('global', 'constant'):
                const = p.next() == 'constant'
                break
            elif w == 'alias':
                p.next()
                p.type()
                p.need(',')
                p.type()
                r = ('alias', p.value(PTR), True)
                self.gcache[name] = r
                return r
            else:
                raise SyntaxError('global ' + line[:100])
        t = p.type()
        init = None
        if p.kind() != 'end' and p.peek() != ',':
            init = p.value(t)
        r = (t, init, const)
        self.gcache[name] = r
        return r

    def fn(self, name):
        f = self.cache.get(name)
        if f is None:
            f = self.cache[name] = self.parse(name)
        return f

    def parse(self, name):
        a, b = self.defs[name]
        text = self.text[a:b]
        lines = text.split('\n')
        p = P(self, tokens(re.sub(r'\s*\{\s*$', '', lines[0])))
        p.need('define')
        while p.peek() in LINK or p.peek() in CC:
            p.next()
        p.attrs()
        rt = p.type()
        p.attrs()
        p.next()
        p.need('(')
        params = []
        sret = False
        while not p.at(')'):
            if p.at('...'):
                continue
            t = p.type()
            p.attrs()
            nm = None
            if p.kind() == 'loc':
                nm = p.next()
            params.append((t, nm or f'%{len(params)}'))
            p.at(',')
        slots = {}

        def slot(n):
            if n not in slots:
                slots[n] = len(slots)
            return slots[n]
        for t, n in params:
            slot(n)
        # logical lines
        blocks, cur = [], None
        names = {}
        first = True
        pend = None
        for l in lines[1:-1]:
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            m = re.match(r'^("[^"]+"|[\w.$-]+):', l)
            if m:
                cur = []
                names['%' + m.group(1)] = len(blocks)
                blocks.append(cur)
                first = False
                continue
            if l.lstrip().startswith('#dbg'):
                continue
            if first:
                cur = []
                names['%' + str(len(params))] = 0
                names['%entry-block'] = 0
                blocks.append(cur)
                first = False
            if l.startswith('    ') or l.lstrip().startswith(']'):
                cur[-1] += ' ' + re.sub(r';.*$', '', l).strip()
            else:
                cur.append(l.strip())
        f = {'n': name, 'full': name, 'rt': rt, 'params': params, 'b': [], 'pos': None, 'id': name}
        self.cache[name] = f
        for bl in blocks:
            ins = []
            for l in bl:
                ins.append(self.instr(l, slot, names))
            f['b'].append({'i': ins})
        f['nreg'] = len(slots)
        return f

    def instr(self, l, slot, names):
        p = P(self, tokens(l))
        r = None
        if p.kind() == 'loc' and p.t[p.i + 1][1] == '=':
            r = p.next()
            p.next()
        o = p.next()
        d = {'o': o, 'r': slot(r) if r else None, 'txt': l[:160]}

        def V(t):
            return self.fix(p.value(t), slot)

        def lab():
            p.need('label')
            return names[p.next()]
        if o in ('tail', 'musttail', 'notail'):
            o = d['o'] = p.next()
        if o == 'ret':
            t = p.type()
            d['t'] = t
            d['v'] = None if t == VOID else V(t)
        elif o == 'br':
            if p.peek() == 'label':
                d['o'] = 'jmp'
                d['d'] = lab()
            else:
                t = p.type()
                d['c'] = V(t)
                p.need(',')
                a = lab()
                p.need(',')
                d['d'] = (a, lab())
        elif o == 'switch':
            t = p.type()
            d['t'], d['c'] = t, V(t)
            p.need(',')
            d['def'] = lab()
            p.need('[')
            cs = []
            while not p.at(']'):
                tt = p.type()
                v = p.value(tt)
                p.need(',')
                cs.append((v[1], lab()))
            d['cases'] = cs
        elif o == 'unreachable' or o == 'resume':
            pass
        elif o == 'alloca':
            t = p.type()
            n = 1
            if p.at(','):
                if p.kind() == 'word' and p.peek()[0] == 'i':
                    tt = p.type()
                    n = p.value(tt)[1]
            d['size'] = size_align(t)[0] * n
        elif o == 'load':
            p.at('atomic')
            p.at('volatile')
            d['t'] = p.type()
            p.need(',')
            d['p'] = V(p.type())
        elif o == 'store':
            p.at('atomic')
            p.at('volatile')
            t = p.type()
            d['t'], d['v'] = t, V(t)
            p.need(',')
            d['p'] = V(p.type())
        elif o == 'getelementptr':
            d['o'] = 'gep'
            while p.peek() in FLAGS:
                if p.next() == 'inrange':
                    p.balanced()
            d['t'] = p.type()
            p.need(',')
            d['p'] = V(p.type())
            ix = []
            while p.at(','):
                if p.kind() == 'meta':
                    break
                t = p.type()
                ix.append((t, V(t)))
            d['ix'] = ix
        elif o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            d['o'], d['op'] = 'bin', o
            d['fl'] = set()
            while p.peek() in FLAGS:
                d['fl'].add(p.next())
            d['t'] = t = p.type()
            d['a'] = V(t)
            p.need(',')
            d['b'] = V(t)
        elif o == 'fneg':
            while p.peek() in FLAGS:
                p.next()
            d['t'] = t = p.type()
            d['a'] = V(t)
        elif o in ('icmp', 'fcmp'):
            while p.peek() in FLAGS:
                p.next()
            d['op'] = p.next()
            d['t'] = t = p.type()
            d['a'] = V(t)
            p.need(',')
            d['b'] = V(t)
        elif o in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptrunc', 'fpext', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'ptrtoaddr', 'addrspacecast'):
            d['o'], d['op'] = 'cast', o
            while p.peek() in FLAGS:
                p.next()
            d['t'] = t = p.type()
            d['a'] = V(t)
            p.need('to')
            d['t2'] = p.type()
        elif o == 'select':
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            d['ct'] = t
            d['c'] = V(t)
            p.need(',')
            t = p.type()
            d['t'], d['a'] = t, V(t)
            p.need(',')
            t = p.type()
            d['b'] = V(t)
        elif o == 'phi':
            while p.peek() in FLAGS:
                p.next()
            d['t'] = t = p.type()
            e = {}
            while True:
                p.need('[')
                v = V(t)
                p.need(',')
                e[names[p.next()]] = v
                p.need(']')
                if not p.at(','):
                    break
                if p.kind() == 'meta':
                    break
            d['e'] = e
        elif o == 'extractvalue':
            d['t'] = t = p.type()
            d['a'] = V(t)
            ix = []
            while p.at(','):
                if p.kind() != 'num':
                    break
                ix.append(int(p.next()))
            d['ix'] = ix
        elif o == 'insertvalue':
            d['t'] = t = p.type()
            d['a'] = V(t)
            p.need(',')
            t = p.type()
            d['et'] = t
            d['b'] = V(t)
            ix = []
            while p.at(','):
                if p.kind() != 'num':
                    break
                ix.append(int(p.next()))
            d['ix'] = ix
        elif o == 'freeze':
            d['t'] = t = p.type()
            d['a'] = V(t)
        elif o in ('call', 'invoke'):
            while p.peek() in FLAGS or p.peek() in CC:
                p.next()
            p.attrs()
            t = p.ftype()
            if t[0] == 'fn':
                t = t[1]
            p.attrs()
            d['t'] = t
            if p.at('asm'):
                d['f'] = ('asm',)
                d['args'] = []
                return d
            d['f'] = V(PTR)
            p.need('(')
            args = []
            while not p.at(')'):
                tt = p.type()
                p.attrs()
                if tt == ('x', 'metadata'):
                    # skip the metadata operand
                    p.next()
                    if p.peek() == '(':
                        p.balanced()
                    args.append((tt, ('u',)))
                else:
                    args.append((tt, V(tt)))
                p.at(',')
            d['args'] = args
            if o == 'invoke':
                d['o'] = 'call'
                while p.peek() != 'to':
                    p.next()
                p.next()
                d['to'] = lab()
        elif o in ('landingpad', 'fence', 'cleanuppad', 'catchpad'):
            pass
        elif o == 'cmpxchg':
            p.at('weak')
            p.at('volatile')
            d['p'] = V(p.type())
            p.need(',')
            t = p.type()
            d['t'], d['a'] = t, V(t)
            p.need(',')
            t = p.type()
            d['b'] = V(t)
        elif o == 'atomicrmw':
            p.at('volatile')
            d['op'] = p.next()
            d['p'] = V(p.type())
            p.need(',')
            t = p.type()
            d['t'], d['a'] = t, V(t)
        elif o in ('extractelement', 'insertelement', 'shufflevector', 'va_arg'):
            d['o'] = 'unsup'
        else:
            raise SyntaxError('instruction ' + l)
        return d

    def fix(self, v, slot):
        if v[0] == 'r':
            return ('r', slot(v[1]))
        if v[0] == 'agg':
            return ('agg', [(t, self.fix(x, slot)) for t, x in v[1]])
        return v
