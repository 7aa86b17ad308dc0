package codec

import "math"

func b32(f float32) uint32 { return math.Float32bits(f) }
func b64(f float64) uint64 { return math.Float64bits(f) }
func f32(b uint32) float32 { return math.Float32frombits(b) }
func f64(b uint64) float64 { return math.Float64frombits(b) }

// ---- the wire format, written down independently of the implementations

func varint(out []byte, x uint64) []byte {
	for x > 127 {
		out = append(out, byte(x%128)+128)
		x = x / 128
	}
	return append(out, byte(x))
}

func specU32(out []byte, x uint32) []byte { return varint(append(out, KU32), uint64(x)) }

// header is the encoding of x up to, but without, its payload.
func header(x value) []byte {
	out := make([]byte, 0, 16)
	out = append(out, byte(x.k))
	switch x.k {
	case KMap:
		out = specU32(append(out, x.a, x.v), uint32(x.n))
	case KSlice:
		out = specU32(append(out, x.a), uint32(x.n))
	case KBytes:
		out = specU32(out, uint32(len(x.b)))
	case KString:
		out = specU32(out, uint32(len(x.s)))
	case KError:
		out = specU32(append(out, KString), uint32(len(x.s)))
	case KBool, KU8:
		out = append(out, byte(x.n))
	case KU16, KU32, KU64:
		out = varint(out, x.n)
	case KI32:
		// zig-zag: 0,-1,1,-2,... become 0,1,2,3,...
		v := int64(int32(uint32(x.n)))
		if v < 0 {
			out = varint(out, uint64(-2*v-1))
		} else {
			out = varint(out, uint64(2*v))
		}
	case KI64:
		v := int64(x.n)
		if v < 0 {
			out = varint(out, uint64(-(v+1))*2+1)
		} else {
			out = varint(out, uint64(v)*2)
		}
	case KF32:
		b := uint32(x.n)
		out = append(out, byte(b>>24), byte(b>>16), byte(b>>8), byte(b))
	case KF64:
		b := x.n
		for i := 56; i >= 0; i -= 8 {
			out = append(out, byte(b>>uint(i)))
		}
	}
	return out
}

func plen(x value) int {
	switch x.k {
	case KBytes:
		return len(x.b)
	case KString, KError:
		return len(x.s)
	}
	return 0
}

// ref parses a value of kind k at the start of in: the value, the number of
// bytes it takes, whether the encoding is complete and in range.  For payloads
// the value's b is the payload.
func ref(in []byte, k int, a, v byte) (x value, n int, ok bool) {
	x.k = k
	if len(in) < 1 || in[0] != byte(k) {
		return x, 0, false
	}
	pos := 1
	switch k {
	case KNil:
		return x, 1, true
	case KBool:
		if len(in) < 2 || in[1] > 1 {
			return x, 0, false
		}
		x.n = uint64(in[1])
		return x, 2, true
	case KU8:
		if len(in) < 2 {
			return x, 0, false
		}
		x.n = uint64(in[1])
		return x, 2, true
	case KU16:
		x.n, n, ok = refVar(in, 1, 16)
		return x, n, ok
	case KU32:
		x.n, n, ok = refVar(in, 1, 32)
		return x, n, ok
	case KU64:
		x.n, n, ok = refVar(in, 1, 64)
		return x, n, ok
	case KI32:
		x.n, n, ok = refVar(in, 1, 32)
		if x.n%2 == 1 {
			x.n = uint64(uint32(-int64(x.n/2) - 1))
		} else {
			x.n = x.n / 2
		}
		return x, n, ok
	case KI64:
		x.n, n, ok = refVar(in, 1, 64)
		if x.n%2 == 1 {
			x.n = uint64(-int64(x.n/2) - 1)
		} else {
			x.n = x.n / 2
		}
		return x, n, ok
	case KF32:
		if len(in) < 5 {
			return x, 0, false
		}
		for i := 1; i < 5; i++ {
			x.n = x.n<<8 | uint64(in[i])
		}
		return x, 5, true
	case KF64:
		if len(in) < 9 {
			return x, 0, false
		}
		for i := 1; i < 9; i++ {
			x.n = x.n<<8 | uint64(in[i])
		}
		return x, 9, true
	case KSlice:
		if len(in) < 2 || in[1] != a {
			return x, 0, false
		}
		pos = 2
	case KMap:
		if len(in) < 3 || in[1] != a || in[2] != v {
			return x, 0, false
		}
		pos = 3
	case KError:
		if len(in) < 2 || in[1] != KString {
			return x, 0, false
		}
		pos = 2
	}
	if len(in) <= pos || in[pos] != KU32 {
		return x, 0, false
	}
	x.n, n, ok = refVar(in, pos+1, 32)
	if !ok || k == KSlice || k == KMap {
		return x, n, ok
	}
	if x.n > uint64(len(in)-n) {
		return x, 0, false
	}
	x.b = in[n : n+int(x.n)]
	return x, n + int(x.n), true
}

// refVar parses a varint of at most ceil(bits/7) bytes whose value has at most
// bits bits.
func refVar(in []byte, pos int, bits uint) (uint64, int, bool) {
	max := int(bits+6) / 7
	var x uint64
	for i := 0; i < max; i++ {
		if pos+i >= len(in) {
			return 0, 0, false
		}
		c := in[pos+i]
		if i == max-1 && c >= 1<<(bits-7*uint(max-1)) {
			return 0, 0, false
		}
		x |= uint64(c&127) << (7 * uint(i))
		if c < 128 {
			return x, pos + i + 1, true
		}
	}
	return 0, 0, false
}
