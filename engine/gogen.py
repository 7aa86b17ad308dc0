"""Harnesses for the code the Go generators write (C22, C23, C24), from the schema family."""
import schemas
from schemas import Enum, Msg, PKG, camel

GOT = {'int32': 'int32', 'sint32': 'int32', 'sfixed32': 'int32', 'uint32': 'uint32', 'fixed32': 'uint32',
       'int64': 'int64', 'sint64': 'int64', 'sfixed64': 'int64', 'uint64': 'uint64', 'fixed64': 'uint64',
       'float': 'float32', 'double': 'float64', 'bool': 'bool', 'string': 'string', 'bytes': '[]byte'}
SYM = {'int32': 'I32', 'uint32': 'U32', 'int64': 'I64', 'uint64': 'U64', 'float32': 'F32', 'float64': 'F64', 'bool': 'Bool'}
CALL = {'int32': 'Int32', 'uint32': 'Uint32', 'int64': 'Int64', 'uint64': 'Uint64', 'float32': 'Float32', 'float64': 'Float64',
        'bool': 'Bool', 'string': 'String', '[]byte': 'Bytes'}
KIND = {**CALL}


class Gen:
    def __init__(self, v, thorough=False):
        self.v, self.thorough = v, thorough
        self.enums, self.msgs = schemas.family()
        self.desc, self.paths = schemas.descriptor(self.enums, self.msgs)
        self.all = []
        for m in self.msgs:
            self.all += list(m.nested) + [m]
        self.out = []

    def w(self, s):
        self.out.append(s)

    def tname(self, t):
        return camel(PKG + '.' + self.paths[id(t)])

    def gotype(self, t):
        if isinstance(t, Msg):
            return '*fam.' + self.tname(t)
        return 'fam.' + self.tname(t) if isinstance(t, Enum) else GOT[t]

    def maptype(self, m, f):
        return 'fam.' + camel(f'{PKG}.{self.paths[id(m)]}.{f.name}') + 'Map'

    def base(self, t):
        """the Go type whose encode and decode calls are used"""
        return 'uint32' if isinstance(t, Enum) else GOT[t]

    def kind(self, t):
        return 'polyglot.AnyKind' if isinstance(t, Msg) else f'polyglot.{KIND[self.base(t)]}Kind'

    # ---- arbitrary values
    def mk(self, t, name, small):
        """an expression for an arbitrary value of type t"""
        if isinstance(t, Msg):
            return f'mk{self.tname(t)}(true)'
        if isinstance(t, Enum):
            return f'fam.{self.tname(t)}(u32_("{name}", {small}))'
        g = GOT[t]
        if g in ('string', '[]byte'):
            return f'{"str_" if g == "string" else "bytes_"}("{name}", {small})'
        if g in ('int32', 'uint32', 'int64', 'uint64'):
            return f'{g[0]}{g[-2:]}_("{name}", {small})'
        return f'sym.{SYM[g]}("{name}")'

    def mkfunc(self, m):
        T = self.tname(m)
        self.w(f'func mk{T}(small bool) *fam.{T} {{\n\tx := &fam.{T}{{}}')
        one = len(m.fields) > 1
        full = m.o.get('full')
        for i, f in enumerate(m.fields):
            F, nm = camel(f.name), f'{T}.{f.name}'
            if f.card == 'one':
                if isinstance(f.type, Msg):
                    if full:
                        self.w(f'\tx.{F} = {self.mk(f.type, nm, "true")}')
                    elif f.type is m:
                        self.w(f'\tif sym.Choose("{nm}.set", 2) == 1 {{\n\t\tdepth--\n\t\tif depth > 0 {{\n\t\t\tx.{F} = {self.mk(f.type, nm, "true")}\n\t\t}}\n\t}}')
                    elif self.firstmsg(m) is f:
                        self.w(f'\tx.{F} = {self.mk(f.type, nm, "true")}')
                    else:
                        self.w(f'\tif sym.Choose("{nm}.set", 2) == 1 {{\n\t\tx.{F} = {self.mk(f.type, nm, "true")}\n\t}}')
                else:
                    self.w(f'\tx.{F} = {self.mk(f.type, nm, "small" if not one else "true")}')
            elif f.card == 'list':
                lim = 3 if not one else 2
                n = '1' if full else f'sym.Choose("{nm}.n", {lim})'
                self.w(f'\tfor n, i := {n}, 0; i < n; i++ {{\n\t\tx.{F} = append(x.{F}, {self.mk(f.type, nm, "small || n > 1" if not one else "true")})\n\t}}')
            else:
                lim = 3 if not one else 2
                n = '2' if full else f'sym.Choose("{nm}.n", {lim + 1})'
                self.w(f'\tif n := {n}; n > 0 {{\n\t\tx.{F} = {self.maptype(m, f)}{{}}\n\t\tfor i := 1; i < n; i++ {{\n'
                       f'\t\t\tk := {self.mk(f.key, nm + ".k", "small || n > 2" if not one else "true")}\n\t\t\t_, ok := x.{F}[k]\n\t\t\tsym.Assume(!ok)\n'
                       f'\t\t\tx.{F}[k] = {self.mk(f.type, nm + ".v", "small || n > 2" if not one else "true")}\n\t\t}}\n\t}}')
        self.w('\treturn x\n}\n')

    def firstmsg(self, m):
        """the nested message whose nil would be taken for a nil of m: nothing is encoded before it"""
        if any(f.card == 'list' or (f.card == 'one' and not isinstance(f.type, Msg)) for f in m.fields):
            return None
        for f in m.fields:
            return f if f.card == 'one' else None

    def recursive(self, m, seen=()):
        return m in seen or any(self.recursive(f.type, seen + (m,)) for f in m.fields if isinstance(f.type, Msg))

    # ---- equality
    def eq(self, t, a, b, what):
        if isinstance(t, Msg):
            return f'eq{self.tname(t)}({a}, {b})'
        g = None if isinstance(t, Enum) else GOT[t]
        if g == '[]byte':
            c = f'string({a}) == string({b})'
        elif g in ('float32', 'float64'):
            c = f'math.Float{g[5:]}bits({a}) == math.Float{g[5:]}bits({b})'
        else:
            c = f'{a} == {b}'
        return f'sym.Assert({c}, "{what}")'

    def eqfunc(self, m):
        T = self.tname(m)
        # the first module allocates nested messages up front: unset is empty
        unset = '' if self.v == 2 else f'\tif a == nil {{\n\t\ta = &fam.{T}{{}}\n\t}}\n\tif b == nil {{\n\t\tb = &fam.{T}{{}}\n\t}}\n'
        self.w(f'func eq{T}(a, b *fam.{T}) {{\n{unset}\tif a == nil || b == nil {{\n\t\tsym.Assert(a == nil && b == nil, "a message is nil exactly if it was")\n\t\treturn\n\t}}')
        for f in m.fields:
            F = camel(f.name)
            cat = f.cat
            if f.card == 'one':
                self.w('\t' + self.eq(f.type, f'a.{F}', f'b.{F}', f'{cat} field'))
            elif f.card == 'list':
                self.w(f'\tsym.Assert(len(a.{F}) == len(b.{F}), "length of a list")\n\tfor i := range a.{F} {{\n\t\t{self.eq(f.type, f"a.{F}[i]", f"b.{F}[i]", f"{cat} element")}\n\t}}')
            else:
                self.w(f'\tsym.Assert(len(a.{F}) == len(b.{F}), "size of a map")\n\tfor k, v := range a.{F} {{\n\t\tw, ok := b.{F}[k]\n'
                       f'\t\tsym.Assert(ok, "key of a map")\n\t\t{self.eq(f.type, "v", "w", f"{cat} value of a map")}\n\t}}')
        self.w('}\n')

    # ---- the specified wire form, by the library's own calls
    def put(self, t, e):
        if isinstance(t, Msg):
            return f'put{self.tname(t)}(b, {e})'
        return f'polyglot.Encoder(b).{CALL[self.base(t)]}({f"uint32({e})" if isinstance(t, Enum) else e})'

    def putfunc(self, m):
        T = self.tname(m)
        self.w(f'func put{T}(b *polyglot.Buffer, x *fam.{T}) {{\n\tif x == nil {{\n\t\tpolyglot.Encoder(b).Nil()\n\t\treturn\n\t}}')
        for f in self.ordered(m):
            F = camel(f.name)
            if f.card == 'one':
                self.w('\t' + self.put(f.type, f'x.{F}'))
            elif f.card == 'list':
                self.w(f'\tpolyglot.Encoder(b).Slice(uint32(len(x.{F})), {self.kind(f.type)})\n\tfor _, v := range x.{F} {{\n\t\t{self.put(f.type, "v")}\n\t}}')
            else:
                self.w(f'\tpolyglot.Encoder(b).Map(uint32(len(x.{F})), {self.kind(f.key)}, {self.kind(f.type)})\n\tfor k, v := range x.{F} {{\n'
                       f'\t\t{self.put(f.key, "k")}\n\t\t{self.put(f.type, "v")}\n\t}}')
        self.w('}\n')

    def ordered(self, m):
        return [f for f in m.fields if f.card == 'one' and not isinstance(f.type, Msg)] + [f for f in m.fields if f.card == 'list'] + \
               [f for f in m.fields if f.card == 'map' or (f.card == 'one' and isinstance(f.type, Msg))]

    # ---- the specified decoding, by the library's own calls
    def dec(self):
        return '*polyglot.Decoder' if self.v == 1 else '*polyglot.BufferDecoder'

    def get(self, t, dst, small, decl=False):
        """statements that decode a t into the variable dst; small: an expression"""
        if isinstance(t, Msg):
            s = f'{dst} = &fam.{self.tname(t)}{{}}\n\tif !d.Nil() {{\n\t\tif err = get{self.tname(t)}(d, {dst}, true); err != nil {{\n\t\t\treturn err\n\t\t}}\n\t}} else {{\n\t\tpos++\n\t}}'
            return (f'var {dst} {self.gotype(t)}\n\t' if decl else '') + s
        g = self.base(t)
        arg = 'nil' if g == '[]byte' else ''
        if g in ('string', '[]byte'):
            at, used = 2, '3 + len(r)'
        elif 'int' in g:
            at, used = 1, '2'
        else:
            at, used = 0, {'bool': '2', 'float32': '5', 'float64': '9'}[g]
        s = f'\tone({at}, {small})\n\t' if at else ''
        s += f'if r, e := d.{CALL[g]}({arg}); e != nil {{\n\t\treturn e\n\t}} else {{\n\t\t{dst} = {self.gotype(t)}(r)\n\t\tpos += {used}\n\t}}'
        return (f'var {dst} {self.gotype(t)}\n\t' if decl else '') + s

    def getfunc(self, m):
        """decodes the fields of x, which is not nil"""
        T = self.tname(m)
        self.w(f'func get{T}(d {self.dec()}, x *fam.{T}, small bool) error {{\n\tvar err error\n\t_ = err')
        sm = 'small' if len(m.fields) < 2 else 'true'
        if self.recursive(m):
            self.w('\tdepth--\n\tsym.Assume(depth > 0)')
        cnt = 'n == 1' if m.o.get('full') else 'n <= maxList'
        for f in self.ordered(m):
            F = camel(f.name)
            if f.card == 'one' and isinstance(f.type, Msg):
                U = self.tname(f.type)
                if self.v == 1:
                    self.w('\t' + self.get(f.type, f'x.{F}', 'true'))
                else:
                    self.w(f'\tif !d.Nil() {{\n\t\tx.{F} = &fam.{U}{{}}\n\t\tif err = get{U}(d, x.{F}, true); err != nil {{\n\t\t\treturn err\n\t\t}}\n\t}} else {{\n\t\tpos++\n\t}}')
            elif f.card == 'one':
                self.w('\t' + self.get(f.type, f'x.{F}', sm))
            elif f.card == 'list':
                self.w(f'\tone(3, true)\n\tif n, e := d.Slice({self.kind(f.type)}); e != nil {{\n\t\treturn e\n\t}} else {{\n\t\tsym.Assume({cnt})\n\t\tpos += 4\n\t\tfor i := uint32(0); i < n; i++ {{\n'
                       f'\t{self.get(f.type, "v", sm + " || n > 1", True)}\n\tx.{F} = append(x.{F}, v)\n\t\t}}\n\t}}')
            else:
                self.w(f'\tif !d.Nil() {{\n\tone(4, true)\n\tif n, e := d.Map({self.kind(f.key)}, {self.kind(f.type)}); e != nil {{\n\t\treturn e\n\t}} else {{\n\t\tsym.Assume({cnt})\n\t\tpos += 5\n'
                       f'\t\tx.{F} = {self.maptype(m, f)}{{}}\n\t\tfor i := uint32(0); i < n; i++ {{\n\t{self.get(f.key, "k", sm + " || n > 1", True)}\n\t{self.get(f.type, "v", sm + " || n > 1", True)}\n\tx.{F}[k] = v\n\t\t}}\n\t}}\n\t}} else {{\n\t\tpos++\n\t}}')
        self.w('\treturn nil\n}\n')

    def text(self, funcs):
        imp = 'github.com/loopholelabs/polyglot' + ('/v2' if self.v == 2 else '')
        nil = 'fam.NilDecode' if self.v == 1 else 'fam.ErrDecodeNil'
        newdec = 'polyglot.GetDecoder(in)' if self.v == 1 else 'polyglot.Decoder(in)'
        self.out = [f'''package h{self.v}

import (
	"math"

	polyglot "{imp}"

	fam "verif/harness/fam{self.v}"
	"verif/harness/sym"
)

const maxList = 2

var depth = 3

var maxPayload = 1<<32 - 1

var _ = math.Float32bits

func i32_(n string, small bool) int32 {{
	v := sym.I32(n)
	sym.Assume(!small || (v > -64 && v < 64))
	return v
}}

func u32_(n string, small bool) uint32 {{
	v := sym.U32(n)
	sym.Assume(!small || v < 128)
	return v
}}

func i64_(n string, small bool) int64 {{
	v := sym.I64(n)
	sym.Assume(!small || (v > -64 && v < 64))
	return v
}}

func u64_(n string, small bool) uint64 {{
	v := sym.U64(n)
	sym.Assume(!small || v < 128)
	return v
}}

func str_(n string, small bool) string {{
	if small {{
		return sym.Str(n, 0, 100)
	}}
	return sym.Str(n, 0, maxPayload)
}}

func bytes_(n string, small bool) []byte {{
	if small {{
		return sym.Bytes(n, 0, 100)
	}}
	return sym.Bytes(n, 0, maxPayload)
}}

var data []byte

var pos int

// the number at this distance has one byte, if small
func one(at int, small bool) {{
	if small {{
		sym.Assume(pos+at >= len(data) || data[pos+at] < 128)
	}}
}}

func decoder(in []byte) {self.dec()} {{
	data = in
	return {newdec}
}}
''']
        for m in self.all:
            self.mkfunc(m)
            self.eqfunc(m)
            self.putfunc(m)
            self.getfunc(m)
        for f in funcs:
            self.w(f)
        self.w(f'var errNil = {nil}\n')
        return '\n'.join(self.out)

    # ---- harnesses
    def trip(self, m, prefix):
        T = self.tname(m)
        tail = '[]byte(nil)' if m.o.get('notail') else 'sym.Bytes("tail", 0, 1<<20)'
        return f'{prefix}_{m.name}', f'''func {prefix}_{m.name}() {{
	x := mk{T}(false)
	b := polyglot.NewBuffer()
	x.Encode(b)
	tail := {tail}
	in := append(append([]byte(nil), b.Bytes()...), tail...)
	y := fam.New{T}()
	sym.Assert(y.Decode(in) == nil, "what was encoded decodes")
	eq{T}(x, y)
	sym.Reach("done")
}}
'''

    def reuse(self, m, prefix):
        T = self.tname(m)
        return f'{prefix}_{m.name}', f'''func {prefix}_{m.name}() {{
	x := mk{T}(true)
	y := mk{T}(true)
	b := polyglot.NewBuffer()
	x.Encode(b)
	sym.Assert(y.Decode(b.Bytes()) == nil, "what was encoded decodes")
	eq{T}(x, y)
	sym.Reach("done")
}}
'''

    def nils(self, m, prefix):
        T = self.tname(m)
        return f'{prefix}_{m.name}', f'''func {prefix}_{m.name}() {{
	var n *fam.{T}
	b := polyglot.NewBuffer()
	n.Encode(b)
	c := polyglot.NewBuffer()
	polyglot.Encoder(c).Nil()
	sym.Assert(string(b.Bytes()) == string(c.Bytes()), "a nil message is encoded as nil")
	sym.Assert(n.Decode(sym.Bytes("in", 0, 1<<20)) == errNil, "decoding into a nil message is an error")
	y := mk{T}(true)
	z := *y
	sym.Assert(y.Decode(b.Bytes()) == nil, "a nil message decodes")
	eq{T}(y, &z)
	sym.Reach("done")
}}
'''

    def wire(self, m, prefix):
        T = self.tname(m)
        lim = ''.join(f'\tsym.Assume(len(x.{camel(f.name)}) <= 1)\n' for f in m.fields if f.card == 'map')
        return f'{prefix}_{m.name}', f'''func {prefix}_{m.name}() {{
	x := mk{T}(false)
{lim}	b := polyglot.NewBuffer()
	x.Encode(b)
	c := polyglot.NewBuffer()
	put{T}(c, x)
	sym.Assert(string(b.Bytes()) == string(c.Bytes()), "the specified wire form")
	sym.Reach("done")
}}
'''

    def total(self, m, prefix):
        T = self.tname(m)
        return f'{prefix}_{m.name}', f'''func {prefix}_{m.name}() {{
	in := sym.Bytes("in", 0, 1<<36)
	d := decoder(in)
	y := fam.New{T}()
	z := fam.New{T}()
	var want error
	if !d.Nil() {{
		want = get{T}(d, z, false)
	}}
	got := y.Decode(in)
	sym.Assert((got == nil) == (want == nil), "an error exactly if a field is missing, cut off or of another kind")
	if got != nil {{
		sym.Reach("rejected")
		return
	}}
	eq{T}(z, y)
	sym.Reach("decoded")
}}
'''

    def alloc(self, m, prefix):
        T = self.tname(m)
        return f'{prefix}_{m.name}', f'''func {prefix}_{m.name}() {{
	in := sym.Bytes("in", 8, 8)
	y := fam.New{T}()
	sym.AllocLimit(1<<20)
	y.Decode(in)
	sym.AllocDone()
	sym.Reach("done")
}}
'''

    # ---- the known findings of the wire form, from values that show them
    def ambiguous(self, prefix):
        return f'''func {prefix}_first_nil() {{
	x := &fam.FamNTwo{{P: mkFamPair(true)}}
	b := polyglot.NewBuffer()
	x.Encode(b)
	y := fam.NewFamNTwo()
	sym.Assert(y.Decode(b.Bytes()) == nil, "what was encoded decodes")
	eqFamNTwo(x, y)
	sym.Reach("done")
}}

func {prefix}_empty_then_nil() {{
	x := &fam.FamEmptyNil{{X: sym.Bool("x"), E: &fam.FamEmpty{{}}}}
	b := polyglot.NewBuffer()
	x.Encode(b)
	y := fam.NewFamEmptyNil()
	sym.Assert(y.Decode(b.Bytes()) == nil, "what was encoded decodes")
	eqFamEmptyNil(x, y)
	sym.Reach("done")
}}
'''
