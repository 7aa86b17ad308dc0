package codec

import (
	"errors"

	p1 "github.com/loopholelabs/polyglot"
	p2 "github.com/loopholelabs/polyglot/v2"

	"verif/harness/sym"
)

// atRest asserts that what remains to be decoded in d is exactly want.
func atRest(m int, d dec, want []byte, msg string) {
	if r, ok := d.Rest(); ok {
		sym.AssertBytesEq(r, want, msg)
		return
	}
	// the representation is not a plain slice: compare behaviour
	f := newDec(m, want)
	k := []int{KU8, KBytes, KNil}[sym.Choose("probe", 3)]
	x, e1 := get(d, k, 0, 0, nil)
	y, e2 := get(f, k, 0, 0, nil)
	sym.Assert((e1 == nil) == (e2 == nil), msg)
	if e1 == nil {
		same(x, y, msg)
	}
}

func scratch() []byte {
	if sym.Choose("scratch", 2) == 0 {
		return nil
	}
	return sym.BytesCap("scratch", 0, maxInput, maxInput)
}

// C01: decode(encode v, rest) = v, rest
func roundTrip(me, md, k int) {
	x := gen(k)
	var sc []byte
	if k == KBytes {
		sc = scratch()
	}
	rest := sym.Bytes("rest", 0, maxInput)
	e := newEnc(me)
	put(e, x)
	d := newDec(md, sym.Concat(e.Out(), rest))
	y, err := get(d, k, x.a, x.v, sc)
	sym.Assert(err == nil, "decoding an encoded value succeeds")
	same(y, x, "decoded value equals encoded value")
	if k == KError {
		sym.Assert(errors.Is(y.err, msgErr(sym.CloneStr(x.s))), "decoded error matches an error with the same message")
	}
	atRest(md, d, rest, "exactly the value's bytes are consumed")
	sym.Reach("done")
}

// C01, two values after each other, without anything in between
func roundTrip2(me, md, k1, k2 int) {
	x1, x2 := gen(k1), gen(k2)
	// larger payloads: each on its own (roundTrip); this one is about what is
	// left behind between two values
	sym.Assume(plen(x1) < 1<<14 && plen(x2) < 1<<14)
	e := newEnc(me)
	put(e, x1)
	put(e, x2)
	d := newDec(md, e.Out())
	y1, err := get(d, k1, x1.a, x1.v, nil)
	sym.Assert(err == nil, "decoding the first value succeeds")
	same(y1, x1, "first decoded value equals encoded value")
	y2, err := get(d, k2, x2.a, x2.v, nil)
	sym.Assert(err == nil, "decoding the second value succeeds")
	same(y2, x2, "second decoded value equals encoded value")
	atRest(md, d, nil, "everything is consumed")
	sym.Reach("done")
}

// buffers in an arbitrary state
func anyEnc(m int) enc {
	if m == 1 {
		b := p1.Buffer(sym.BytesCap("buf", 0, maxInput, 2*maxInput))
		return newEnc1(&b)
	}
	b := sym.BytesCap("buf", 0, maxInput, 2*maxInput)
	n := sym.Int("offset", 0, 2*maxInput)
	sym.Assume(n <= len(b))
	buf := p2.NewBufferFromBytes(b)
	buf.MoveOffset(n)
	return newEnc2(buf)
}

// C02 (and the encode part of C06): bytes appended, bytes before unchanged
func wire(m, k int) {
	x := gen(k)
	e := anyEnc(m)
	h := header(x)
	before := sym.Clone(e.Out())
	put(e, x)
	after := e.Out()
	want := len(before) + len(h) + plen(x)
	sym.Assert(len(after) == want, "encoded length is that of the canonical form")
	sym.AssertBytesEq(after[:len(before)], before, "bytes already in the buffer are unchanged")
	sym.AssertBytesEq(after[len(before):len(before)+len(h)], h, "canonical kind, length and value bytes")
	switch k {
	case KBytes:
		sym.AssertBytesEq(after[len(before)+len(h):], x.b, "raw payload")
	case KString, KError:
		sym.AssertStrEq(string(after[len(before)+len(h):]), x.s, "raw payload")
	}
	// the encoder returned by the call appends to the same buffer
	put(e, value{k: KNil})
	sym.Assert(len(e.Out()) == want+1, "chained call appends to the same buffer")
	sym.Assert(e.Out()[want] == 0, "chained call appends its encoding")
	sym.Reach("done")
}

// C02: the kind constants
func kinds() {
	k1 := []p1.Kind{p1.NilKind, p1.SliceKind, p1.MapKind, p1.AnyKind, p1.BytesKind, p1.StringKind, p1.ErrorKind, p1.BoolKind,
		p1.Uint8Kind, p1.Uint16Kind, p1.Uint32Kind, p1.Uint64Kind, p1.Int32Kind, p1.Int64Kind, p1.Float32Kind, p1.Float64Kind}
	k2 := []p2.Kind{p2.NilKind, p2.SliceKind, p2.MapKind, p2.AnyKind, p2.BytesKind, p2.StringKind, p2.ErrorKind, p2.BoolKind,
		p2.Uint8Kind, p2.Uint16Kind, p2.Uint32Kind, p2.Uint64Kind, p2.Int32Kind, p2.Int64Kind, p2.Float32Kind, p2.Float64Kind}
	for i := range k1 {
		sym.Assert(len(k1[i]) == 1 && k1[i][0] == byte(i), "kind constants of module 1")
		sym.Assert(k2[i] == p2.Kind(i), "kind constants of module 2")
	}
	sym.Reach("done")
}

// C03: no panic, input untouched, suffix remains
func total(m, k int) {
	in := sym.BytesCap("in", 0, maxInput, 2*maxInput)
	all := in[:cap(in)]
	snap := sym.Clone(all)
	a, v := sym.U8("a"), sym.U8("v")
	var sc []byte
	if k == KBytes {
		sc = scratch()
	}
	d := newDec(m, in)
	_, err := get(d, k, a, v, sc)
	sym.AssertBytesEq(all, snap, "the input is unchanged")
	if r, ok := d.Rest(); ok {
		sym.Assert(len(r) <= len(in), "what remains is not longer than the input")
		sym.AssertBytesEq(r, in[len(in)-len(r):], "what remains is a suffix of the input")
	}
	if err == nil {
		sym.Reach("decoded")
	} else {
		sym.Reach("rejected")
	}
	// the decoder stays usable
	d.Nil()
	_, _ = d.U8()
	sym.AssertBytesEq(all, snap, "the input is unchanged")
}

// C04: another kind is refused and nothing is consumed
func mismatch(m, k int) {
	in := sym.BytesCap("in", 0, maxInput, maxInput)
	a, v := sym.U8("a"), sym.U8("v")
	diff := len(in) == 0 || in[0] != byte(k)
	if k == KSlice && len(in) > 1 {
		diff = diff || in[1] != a
	}
	if k == KMap {
		if len(in) > 1 {
			diff = diff || in[1] != a
		}
		if len(in) > 2 {
			diff = diff || in[2] != v
		}
	}
	if k == KNil {
		d := newDec(m, in)
		if d.Nil() {
			sym.Assert(!diff, "the nil probe reports only a nil kind")
			atRest(m, d, in[1:], "the nil probe consumes one byte")
			sym.Reach("nil")
		} else {
			sym.Assert(diff, "the nil probe reports every nil kind")
			atRest(m, d, in, "a failed nil probe consumes nothing")
			sym.Reach("other")
		}
		return
	}
	sym.Assume(diff)
	d := newDec(m, in)
	_, err := get(d, k, a, v, nil)
	sym.Assert(err != nil, "a value of another kind is refused")
	atRest(m, d, in, "a refused value is not consumed")
	sym.Reach("done")
}

// C05: success means a complete, in-range encoding of the value returned
func sound(m, k int) {
	in := sym.BytesCap("in", 0, maxInput, 2*maxInput)
	a, v := sym.U8("a"), sym.U8("v")
	x, n, ok := ref(in, k, a, v)
	var sc []byte
	if k == KBytes {
		sc = scratch()
	}
	d := newDec(m, in)
	y, err := get(d, k, a, v, sc)
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Assert(ok, "only complete, in-range encodings are accepted")
	switch k {
	case KBytes:
		sym.AssertBytesEq(y.b, x.b, "the value is the one encoded")
	case KString, KError:
		sym.AssertStrEq(y.s, string(x.b), "the value is the one encoded")
	default:
		sym.Assert(y.n == x.n, "the value is the one encoded")
	}
	atRest(m, d, in[n:], "exactly the encoding is consumed")
	sym.Reach("decoded")
}

// C06 -----------------------------------------------------------------

func H_C06_v1_write() {
	b := p1.Buffer(sym.BytesCap("buf", 0, maxInput, 2*maxInput))
	before := sym.Clone(b)
	p := sym.Bytes("p", 0, maxInput)
	n := b.Write(p)
	sym.Assert(n == len(p), "write reports the bytes written")
	sym.Assert(b.Len() == len(before)+len(p), "length is the number of bytes held")
	out := b.Bytes()
	sym.AssertBytesEq(out[:len(before)], before, "bytes already in the buffer are unchanged")
	sym.AssertBytesEq(out[len(before):], p, "bytes written are appended")
	b.Reset()
	sym.Assert(b.Len() == 0 && len(b.Bytes()) == 0, "reset empties the buffer")
	q := sym.Bytes("q", 0, maxInput)
	b.Write(q)
	sym.AssertBytesEq(b.Bytes(), q, "a reset buffer holds what is written next")
	sym.Reach("done")
}

func H_C06_v1_new() {
	b := p1.NewBuffer()
	sym.Assert(b.Len() == 0 && len(b.Bytes()) == 0, "a new buffer is empty")
	p := sym.Bytes("p", 0, maxInput)
	q := sym.Bytes("q", 0, maxInput)
	b.Write(p)
	b.Write(q)
	sym.AssertBytesEq(b.Bytes(), sym.Concat(p, q), "a new buffer holds what is written")
	sym.Reach("done")
}

func anyBuf2() (*p2.Buffer, []byte) {
	switch sym.Choose("ctor", 3) {
	case 0:
		b := p2.NewBuffer()
		sym.Assert(b.Len() == 0 && len(b.Bytes()) == 0, "a new buffer is empty")
		return b, nil
	case 1:
		n := sym.Int("size", 0, maxInput)
		b := p2.NewBufferSize(n)
		sym.Assert(b.Len() == 0 && len(b.Bytes()) == 0, "a new buffer is empty")
		sym.Assert(b.Cap() >= n, "a sized buffer has the capacity asked for")
		return b, nil
	}
	s := sym.BytesCap("buf", 0, maxInput, 2*maxInput)
	n := sym.Int("offset", 0, maxInput)
	sym.Assume(n <= len(s))
	b := p2.NewBufferFromBytes(s)
	sym.Assert(b.Len() == 0, "a buffer made from a slice starts at its beginning")
	b.MoveOffset(n)
	sym.AssertBytesEq(b.Bytes(), s[:n], "moving the offset exposes the slice's bytes")
	return b, sym.Clone(s[:n])
}

func check2(b *p2.Buffer, want []byte, msg string) {
	sym.Assert(b.Len() == len(want), msg+": length is the number of bytes held")
	sym.AssertBytesEq(b.Bytes(), want, msg+": content")
}

func H_C06_v2_write() {
	b, held := anyBuf2()
	p := sym.Bytes("p", 0, maxInput)
	q := sym.Bytes("q", 0, maxInput)
	n := b.Write(p)
	sym.Assert(n == len(p), "write reports the bytes written")
	held = sym.Concat(held, p)
	check2(b, held, "write")
	b.Write(q)
	check2(b, sym.Concat(held, q), "second write")
	b.Reset()
	check2(b, nil, "reset")
	b.Write(q)
	check2(b, q, "write after reset")
	sym.Reach("done")
}

func H_C06_v2_grow() {
	b, held := anyBuf2()
	n := sym.Int("n", 0, maxInput)
	b.Grow(n)
	check2(b, held, "grow")
	sym.Assert(b.Cap()-b.Len() >= n, "grow leaves room")
	b.MoveOffset(n)
	sym.Assert(b.Len() == len(held)+n, "the offset moves over the room made")
	sym.AssertBytesEq(b.Bytes()[:len(held)], held, "grow keeps the content")
	b.MoveOffset(-n)
	check2(b, held, "moving back")
	m := sym.Int("m", 0, maxInput)
	b.Grow(m)
	check2(b, held, "second grow")
	sym.Assert(b.Cap()-b.Len() >= m, "second grow leaves room")
	sym.Reach("done")
}

func mixed2(k int) {
	b, held := anyBuf2()
	x := gen(k)
	h := header(x)
	put(newEnc2(b), x)
	want := sym.Concat(held, h)
	switch k {
	case KBytes:
		want = sym.Concat(want, x.b)
	case KString, KError:
		want = sym.Concat(want, []byte(x.s))
	}
	check2(b, want, "encode")
	p := sym.Bytes("p", 0, maxInput)
	b.Write(p)
	check2(b, sym.Concat(want, p), "write after encode")
	sym.Reach("done")
}

func mixed1(k int) {
	var b p1.Buffer
	if sym.Choose("ctor", 2) == 0 {
		b = *p1.NewBuffer()
	} else {
		b = p1.Buffer(sym.BytesCap("buf", 0, maxInput, 2*maxInput))
	}
	held := sym.Clone(b)
	x := gen(k)
	h := header(x)
	put(newEnc1(&b), x)
	want := sym.Concat(held, h)
	switch k {
	case KBytes:
		want = sym.Concat(want, x.b)
	case KString, KError:
		want = sym.Concat(want, []byte(x.s))
	}
	sym.Assert(b.Len() == len(want), "length after encode")
	sym.AssertBytesEq(b.Bytes(), want, "content after encode")
	p := sym.Bytes("p", 0, maxInput)
	b.Write(p)
	sym.AssertBytesEq(b.Bytes(), sym.Concat(want, p), "content after write")
	sym.Reach("done")
}

// C07 -----------------------------------------------------------------

func pooled(get func() *p2.Buffer, put_ func(*p2.Buffer)) {
	put_(nil)
	b := get()
	sym.Assert(b != nil && b.Len() == 0 && len(b.Bytes()) == 0, "a pooled buffer is empty")
	p := sym.Bytes("p", 0, maxInput)
	b.Write(p)
	b2 := get()
	sym.Assert(b2 != nil && b2.Len() == 0 && len(b2.Bytes()) == 0, "a second pooled buffer is empty")
	q := sym.Bytes("q", 0, maxInput)
	b2.Write(q)
	check2(b, p, "first buffer is not affected by the second")
	put_(b)
	put_(nil)
	c := get()
	sym.Assert(c != nil && c.Len() == 0 && len(c.Bytes()) == 0, "a recycled buffer is empty")
	r := sym.Bytes("r", 0, maxInput)
	newEnc2(c).U8(7)
	c.Write(r)
	check2(c, sym.Concat([]byte{8, 7}, r), "a recycled buffer holds what is written")
	check2(b2, q, "second buffer is not affected by the recycled one")
	// a buffer that was put back once is handed out once
	d := get()
	sym.Assert(d != nil && d.Len() == 0 && len(d.Bytes()) == 0, "a further buffer is empty")
	d.Write(sym.Bytes("s", 1, maxInput))
	check2(c, sym.Concat([]byte{8, 7}, r), "buffers in use at the same time are independent")
	sym.Reach("done")
}

func H_C07_pool() {
	p := p2.NewPool()
	pooled(p.Get, p.Put)
}

func H_C07_global() { pooled(p2.GetBuffer, p2.PutBuffer) }

func H_C07_two_pools() {
	p, q := p2.NewPool(), p2.NewPool()
	b := p.Get()
	b.Write(sym.Bytes("p", 0, maxInput))
	n := sym.Int("n", 0, maxInput)
	b.Grow(n)
	p.Put(b)
	c := p.Get()
	d := q.Get()
	sym.Assert(c.Len() == 0 && d.Len() == 0, "buffers of both pools are empty")
	x := sym.Bytes("x", 0, maxInput)
	y := sym.Bytes("y", 0, maxInput)
	c.Write(x)
	d.Write(y)
	check2(c, x, "buffers of different pools are independent")
	check2(d, y, "buffers of different pools are independent")
	sym.Reach("done")
}

func decoderReuse(k int, method bool) {
	in := sym.Bytes("in", 0, maxInput)
	in2 := sym.Bytes("in2", 0, maxInput)
	p1.ReturnDecoder(nil)
	d := p1.GetDecoder(in)
	_, _ = get(&dec1{d}, k, 0, 0, nil)
	if method {
		d.Return()
	} else {
		p1.ReturnDecoder(d)
	}
	sym.Assert(!sym.Reaches(d, in), "a returned decoder keeps no reference to its input")
	e := p1.GetDecoder(in2)
	atRest(1, &dec1{e}, in2, "a recycled decoder starts at its own input")
	in3 := sym.Bytes("in3", 0, maxInput)
	f := p1.GetDecoder(in3)
	atRest(1, &dec1{f}, in3, "a further decoder starts at its own input")
	atRest(1, &dec1{e}, in2, "decoders in use at the same time are independent")
	sym.Reach("done")
}

// C08 -----------------------------------------------------------------

func aliasDecode(m, k int) {
	in := sym.BytesCap("in", 0, maxInput, 2*maxInput)
	var sc []byte
	var big, keep []byte
	if k == KBytes && sym.Choose("scratch", 2) == 1 {
		big = sym.Bytes("big", 0, maxInput)
		l := sym.Int("l", 0, maxInput)
		c := sym.Int("c", 0, maxInput)
		sym.Assume(l <= c && c <= len(big))
		sc = big[:l:c]
		keep = sym.Clone(big[c:])
	}
	d := newDec(m, in)
	x, err := get(d, k, 0, 0, sc)
	if big != nil {
		sym.AssertBytesEq(big[cap(sc):], keep, "memory beyond a scratch slice's capacity is untouched")
	}
	if err != nil {
		sym.Reach("rejected")
		return
	}
	snapB, snapS := sym.Clone(x.b), sym.CloneStr(x.s)
	inSnap := sym.Clone(in[:cap(in)])
	if k == KBytes {
		// its capacity is the caller's too: what is appended goes there
		sym.Flip(x.b[:cap(x.b)])
		sym.AssertBytesEq(in[:cap(in)], inSnap, "changing a decoded slice does not change the input")
		sym.Flip(x.b[:cap(x.b)])
	}
	sym.Flip(in[:cap(in)])
	sym.AssertBytesEq(x.b, snapB, "a decoded value is independent of the input")
	sym.AssertStrEq(x.s, snapS, "a decoded value is independent of the input")
	if k == KError {
		sym.AssertStrEq(x.err.Error(), snapS, "a decoded error is independent of the input")
	}
	// nor of what is decoded later
	in2 := sym.Bytes("in2", 0, maxInput)
	_, _ = get(newDec(m, in2), k, 0, 0, nil)
	sym.AssertBytesEq(x.b, snapB, "a decoded value is independent of later decoding")
	sym.AssertStrEq(x.s, snapS, "a decoded value is independent of later decoding")
	sym.Reach("decoded")
}

// two byte slices decoded one after the other do not share memory either
func aliasPair(m int) {
	d := newDec(m, sym.Bytes("in", 0, maxInput))
	x, err := get(d, KBytes, 0, 0, nil)
	sym.Assume(err == nil)
	y, err := get(d, KBytes, 0, 0, nil)
	sym.Assume(err == nil)
	xs, ys := sym.Clone(x.b), sym.Clone(y.b)
	sym.Flip(x.b[:cap(x.b)])
	sym.AssertBytesEq(y.b, ys, "changing a decoded slice does not change another")
	sym.Flip(x.b[:cap(x.b)])
	sym.Flip(y.b[:cap(y.b)])
	sym.AssertBytesEq(x.b, xs, "changing a decoded slice does not change another")
	sym.Reach("done")
}

func H_C08_v1_pair() { aliasPair(1) }
func H_C08_v2_pair() { aliasPair(2) }

func aliasEncode(m, k int) {
	// the caller's memory, encoded from a part of it
	big := sym.Bytes("big", 0, maxPayload)
	lo := sym.Int("lo", 0, maxPayload)
	hi := sym.Int("hi", 0, maxPayload)
	sym.Assume(lo <= hi && hi <= len(big))
	snap := sym.Clone(big)
	src := big[lo:hi]
	e := newEnc(m)
	x := value{k: k, b: src}
	if k != KBytes {
		x.s = sym.AliasStr(src)
		x.err = msgErr(x.s)
	}
	put(e, x)
	sym.AssertBytesEq(big, snap, "encoding does not change the caller's memory")
	out := sym.Clone(e.Out())
	sym.Flip(big)
	sym.AssertBytesEq(e.Out(), out, "encoding copies the caller's bytes")
	e2 := newEnc(m)
	put(e2, value{k: k, b: []byte{1, 2}, s: "ab", err: msgErr("ab")})
	sym.AssertBytesEq(e.Out(), out, "buffers are independent of each other")
	sym.Reach("done")
}

func H_C08_v1_write() {
	b := p1.NewBuffer()
	p := sym.BytesCap("p", 0, maxInput, 2*maxInput)
	snap := sym.Clone(p[:cap(p)])
	b.Write(p)
	sym.AssertBytesEq(p[:cap(p)], snap, "writing does not change the caller's memory")
	out := sym.Clone(b.Bytes())
	sym.Flip(p)
	sym.AssertBytesEq(b.Bytes(), out, "writing copies the caller's bytes")
	sym.Reach("done")
}

func H_C08_v2_write() {
	b := p2.NewBuffer()
	p := sym.BytesCap("p", 0, maxInput, 2*maxInput)
	snap := sym.Clone(p[:cap(p)])
	b.Write(p)
	sym.AssertBytesEq(p[:cap(p)], snap, "writing does not change the caller's memory")
	out := sym.Clone(b.Bytes())
	sym.Flip(p)
	sym.AssertBytesEq(b.Bytes(), out, "writing copies the caller's bytes")
	sym.Reach("done")
}

// C09 -----------------------------------------------------------------
// every store made on these paths must go to memory owned by this call chain

func isolatedEncode(m, k int) {
	x := gen(k)
	e := newEnc(m)
	put(e, x)
	put(e, x)
	sym.Reach("done")
}

func isolatedDecode(m, k int) {
	in := sym.Bytes("in", 0, 4096)
	d := newDec(m, in)
	_, err := get(d, k, 0, 0, nil)
	if err == nil {
		sym.Reach("decoded")
	}
	if x, ok := d.(*dec1); ok {
		x.d.Return()
	}
}

func H_C09_v2_pool() {
	b := p2.GetBuffer()
	b.Write(sym.Bytes("p", 0, 4096))
	p2.PutBuffer(b)
	c := p2.GetBuffer()
	c.Write([]byte{1})
	p2.PutBuffer(c)
	sym.Reach("done")
}
