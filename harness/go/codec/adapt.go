// Package codec holds the harnesses for the two Go modules.  It uses only
// their exported API.
package codec

import (
	p1 "github.com/loopholelabs/polyglot"
	p2 "github.com/loopholelabs/polyglot/v2"

	"verif/harness/sym"
)

// kind numbers of the wire format
const (
	KNil = iota
	KSlice
	KMap
	KAny
	KBytes
	KString
	KError
	KBool
	KU8
	KU16
	KU32
	KU64
	KI32
	KI64
	KF32
	KF64
)

const (
	maxPayload = 1<<32 - 1
	maxInput   = 1 << 36
)

type enc interface {
	Nil()
	Map(n uint32, k, v byte)
	Slice(n uint32, k byte)
	Bytes(b []byte)
	String(s string)
	Error(e error)
	Bool(b bool)
	U8(v uint8)
	U16(v uint16)
	U32(v uint32)
	U64(v uint64)
	I32(v int32)
	I64(v int64)
	F32(v float32)
	F64(v float64)
	Out() []byte
}

type dec interface {
	Nil() bool
	Map(k, v byte) (uint32, error)
	Slice(k byte) (uint32, error)
	Bytes(b []byte) ([]byte, error)
	String() (string, error)
	Error() (error, error)
	Bool() (bool, error)
	U8() (uint8, error)
	U16() (uint16, error)
	U32() (uint32, error)
	U64() (uint64, error)
	I32() (int32, error)
	I64() (int64, error)
	F32() (float32, error)
	F64() (float64, error)
	// Rest is what remains to be decoded, when that can be observed.
	Rest() ([]byte, bool)
}

// ---- module 1

type enc1 struct {
	b *p1.Buffer
	e *p1.BufferEncoder
}

func newEnc1(b *p1.Buffer) enc { return &enc1{b, p1.Encoder(b)} }

func kind1(k byte) p1.Kind { return p1.Kind([]byte{k}) }

func (x *enc1) Nil()                    { x.e = x.e.Nil() }
func (x *enc1) Map(n uint32, k, v byte) { x.e = x.e.Map(n, kind1(k), kind1(v)) }
func (x *enc1) Slice(n uint32, k byte)  { x.e = x.e.Slice(n, kind1(k)) }
func (x *enc1) Bytes(b []byte)          { x.e = x.e.Bytes(b) }
func (x *enc1) String(s string)         { x.e = x.e.String(s) }
func (x *enc1) Error(e error)           { x.e = x.e.Error(e) }
func (x *enc1) Bool(b bool)             { x.e = x.e.Bool(b) }
func (x *enc1) U8(v uint8)              { x.e = x.e.Uint8(v) }
func (x *enc1) U16(v uint16)            { x.e = x.e.Uint16(v) }
func (x *enc1) U32(v uint32)            { x.e = x.e.Uint32(v) }
func (x *enc1) U64(v uint64)            { x.e = x.e.Uint64(v) }
func (x *enc1) I32(v int32)             { x.e = x.e.Int32(v) }
func (x *enc1) I64(v int64)             { x.e = x.e.Int64(v) }
func (x *enc1) F32(v float32)           { x.e = x.e.Float32(v) }
func (x *enc1) F64(v float64)           { x.e = x.e.Float64(v) }
func (x *enc1) Out() []byte             { return x.b.Bytes() }

type dec1 struct{ d *p1.Decoder }

func newDec1(b []byte) dec { return &dec1{p1.GetDecoder(b)} }

func (x *dec1) Nil() bool                      { return x.d.Nil() }
func (x *dec1) Map(k, v byte) (uint32, error)  { return x.d.Map(kind1(k), kind1(v)) }
func (x *dec1) Slice(k byte) (uint32, error)   { return x.d.Slice(kind1(k)) }
func (x *dec1) Bytes(b []byte) ([]byte, error) { return x.d.Bytes(b) }
func (x *dec1) String() (string, error)        { return x.d.String() }
func (x *dec1) Error() (error, error)          { return x.d.Error() }
func (x *dec1) Bool() (bool, error)            { return x.d.Bool() }
func (x *dec1) U8() (uint8, error)             { return x.d.Uint8() }
func (x *dec1) U16() (uint16, error)           { return x.d.Uint16() }
func (x *dec1) U32() (uint32, error)           { return x.d.Uint32() }
func (x *dec1) U64() (uint64, error)           { return x.d.Uint64() }
func (x *dec1) I32() (int32, error)            { return x.d.Int32() }
func (x *dec1) I64() (int64, error)            { return x.d.Int64() }
func (x *dec1) F32() (float32, error)          { return x.d.Float32() }
func (x *dec1) F64() (float64, error)          { return x.d.Float64() }
func (x *dec1) Rest() ([]byte, bool)           { return sym.Rest(x.d) }

// ---- module 2

type enc2 struct {
	b *p2.Buffer
	e *p2.BufferEncoder
}

func newEnc2(b *p2.Buffer) enc { return &enc2{b, p2.Encoder(b)} }

func (x *enc2) Nil()                    { x.e = x.e.Nil() }
func (x *enc2) Map(n uint32, k, v byte) { x.e = x.e.Map(n, p2.Kind(k), p2.Kind(v)) }
func (x *enc2) Slice(n uint32, k byte)  { x.e = x.e.Slice(n, p2.Kind(k)) }
func (x *enc2) Bytes(b []byte)          { x.e = x.e.Bytes(b) }
func (x *enc2) String(s string)         { x.e = x.e.String(s) }
func (x *enc2) Error(e error)           { x.e = x.e.Error(e) }
func (x *enc2) Bool(b bool)             { x.e = x.e.Bool(b) }
func (x *enc2) U8(v uint8)              { x.e = x.e.Uint8(v) }
func (x *enc2) U16(v uint16)            { x.e = x.e.Uint16(v) }
func (x *enc2) U32(v uint32)            { x.e = x.e.Uint32(v) }
func (x *enc2) U64(v uint64)            { x.e = x.e.Uint64(v) }
func (x *enc2) I32(v int32)             { x.e = x.e.Int32(v) }
func (x *enc2) I64(v int64)             { x.e = x.e.Int64(v) }
func (x *enc2) F32(v float32)           { x.e = x.e.Float32(v) }
func (x *enc2) F64(v float64)           { x.e = x.e.Float64(v) }
func (x *enc2) Out() []byte             { return x.b.Bytes() }

type dec2 struct{ d *p2.BufferDecoder }

func newDec2(b []byte) dec { return &dec2{p2.Decoder(b)} }

func (x *dec2) Nil() bool                      { return x.d.Nil() }
func (x *dec2) Map(k, v byte) (uint32, error)  { return x.d.Map(p2.Kind(k), p2.Kind(v)) }
func (x *dec2) Slice(k byte) (uint32, error)   { return x.d.Slice(p2.Kind(k)) }
func (x *dec2) Bytes(b []byte) ([]byte, error) { return x.d.Bytes(b) }
func (x *dec2) String() (string, error)        { return x.d.String() }
func (x *dec2) Error() (error, error)          { return x.d.Error() }
func (x *dec2) Bool() (bool, error)            { return x.d.Bool() }
func (x *dec2) U8() (uint8, error)             { return x.d.Uint8() }
func (x *dec2) U16() (uint16, error)           { return x.d.Uint16() }
func (x *dec2) U32() (uint32, error)           { return x.d.Uint32() }
func (x *dec2) U64() (uint64, error)           { return x.d.Uint64() }
func (x *dec2) I32() (int32, error)            { return x.d.Int32() }
func (x *dec2) I64() (int64, error)            { return x.d.Int64() }
func (x *dec2) F32() (float32, error)          { return x.d.Float32() }
func (x *dec2) F64() (float64, error)          { return x.d.Float64() }
func (x *dec2) Rest() ([]byte, bool)           { return []byte(*x.d), true }

func newEnc(m int) enc {
	if m == 1 {
		return newEnc1(p1.NewBuffer())
	}
	return newEnc2(p2.NewBuffer())
}

func newDec(m int, b []byte) dec {
	if m == 1 {
		return newDec1(b)
	}
	return newDec2(b)
}

// ---- values

type msgErr string

func (e msgErr) Error() string { return string(e) }

type value struct {
	k    int
	n    uint64 // integers, float bits, bools, header sizes
	b    []byte
	s    string // strings and error messages
	err  error
	a, v byte // element kinds
}

func gen(k int) value {
	x := value{k: k}
	switch k {
	case KMap:
		x.n = uint64(sym.U32("size"))
		x.a, x.v = sym.U8("keykind"), sym.U8("valkind")
	case KSlice:
		x.n = uint64(sym.U32("size"))
		x.a = sym.U8("elemkind")
	case KBytes:
		x.b = sym.Bytes("payload", 0, maxPayload)
	case KString:
		x.s = sym.Str("payload", 0, maxPayload)
	case KError:
		x.s = sym.Str("payload", 0, maxPayload)
		x.err = msgErr(x.s)
	case KBool:
		if sym.Bool("v") {
			x.n = 1
		}
	case KU8:
		x.n = uint64(sym.U8("v"))
	case KU16:
		x.n = uint64(sym.U16("v"))
	case KU32, KI32, KF32:
		x.n = uint64(sym.U32("v"))
	case KU64, KI64, KF64:
		x.n = sym.U64("v")
	}
	return x
}

func put(e enc, x value) {
	switch x.k {
	case KNil:
		e.Nil()
	case KMap:
		e.Map(uint32(x.n), x.a, x.v)
	case KSlice:
		e.Slice(uint32(x.n), x.a)
	case KBytes:
		e.Bytes(x.b)
	case KString:
		e.String(x.s)
	case KError:
		e.Error(x.err)
	case KBool:
		e.Bool(x.n == 1)
	case KU8:
		e.U8(uint8(x.n))
	case KU16:
		e.U16(uint16(x.n))
	case KU32:
		e.U32(uint32(x.n))
	case KU64:
		e.U64(x.n)
	case KI32:
		e.I32(int32(uint32(x.n)))
	case KI64:
		e.I64(int64(x.n))
	case KF32:
		e.F32(f32(uint32(x.n)))
	case KF64:
		e.F64(f64(x.n))
	}
}

type failed struct{}

func (failed) Error() string { return "no nil here" }

// get decodes a value of kind k; element kinds are taken from a and v.
func get(d dec, k int, a, v byte, scratch []byte) (x value, err error) {
	x.k, x.a, x.v = k, a, v
	switch k {
	case KNil:
		if !d.Nil() {
			err = failed{}
		}
	case KMap:
		var n uint32
		n, err = d.Map(a, v)
		x.n = uint64(n)
	case KSlice:
		var n uint32
		n, err = d.Slice(a)
		x.n = uint64(n)
	case KBytes:
		x.b, err = d.Bytes(scratch)
	case KString:
		x.s, err = d.String()
	case KError:
		x.err, err = d.Error()
		if err == nil {
			x.s = x.err.Error()
		}
	case KBool:
		var b bool
		b, err = d.Bool()
		if b {
			x.n = 1
		}
	case KU8:
		var n uint8
		n, err = d.U8()
		x.n = uint64(n)
	case KU16:
		var n uint16
		n, err = d.U16()
		x.n = uint64(n)
	case KU32:
		var n uint32
		n, err = d.U32()
		x.n = uint64(n)
	case KU64:
		x.n, err = d.U64()
	case KI32:
		var n int32
		n, err = d.I32()
		x.n = uint64(uint32(n))
	case KI64:
		var n int64
		n, err = d.I64()
		x.n = uint64(n)
	case KF32:
		var n float32
		n, err = d.F32()
		x.n = uint64(b32(n))
	case KF64:
		var n float64
		n, err = d.F64()
		x.n = b64(n)
	}
	return x, err
}

func same(x, y value, msg string) {
	switch x.k {
	case KBytes:
		sym.AssertBytesEq(x.b, y.b, msg)
	case KString, KError:
		sym.AssertStrEq(x.s, y.s, msg)
	default:
		sym.Assert(x.n == y.n, msg)
	}
}
