// Package sym is the harness interface.  Under the symbolic executor every
// function here is an intrinsic; compiled natively it replays one concrete
// assignment of the inputs (a counterexample found by the solver).
package sym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"sync"
	"unsafe"
)

type input struct {
	V   uint64          `json:"v"`
	Len int             `json:"len"`
	Cap int             `json:"cap"`
	Def byte            `json:"def"`
	At  map[string]byte `json:"at"`
}

var model map[string]input
var (
	mu    sync.Mutex
	count = map[string]int{}
	perG  bool
)

// PerGoroutine makes every goroutine consume its own copy of the inputs.
func PerGoroutine() { perG = true }

func Load(file string) {
	d, err := os.ReadFile(file)
	if err != nil {
		fmt.Println("REPLAY-ERROR", err)
		os.Exit(4)
	}
	if err := json.Unmarshal(d, &model); err != nil {
		fmt.Println("REPLAY-ERROR", err)
		os.Exit(4)
	}
}

func get(name string) input {
	mu.Lock()
	defer mu.Unlock()
	key := name
	if perG {
		var buf [64]byte
		n := runtime.Stack(buf[:], false)
		key = string(bytes.Fields(buf[:n])[1]) + "/" + name
	}
	k := count[key]
	count[key] = k + 1
	return model[name+"#"+strconv.Itoa(k)]
}

func U8(name string) uint8    { return uint8(get(name).V) }
func U16(name string) uint16  { return uint16(get(name).V) }
func U32(name string) uint32  { return uint32(get(name).V) }
func U64(name string) uint64  { return get(name).V }
func I32(name string) int32   { return int32(get(name).V) }
func I64(name string) int64   { return int64(get(name).V) }
func F32(name string) float32 { return math.Float32frombits(uint32(get(name).V)) }
func F64(name string) float64 { return math.Float64frombits(get(name).V) }
func Bool(name string) bool   { return get(name).V == 1 }

// Int returns a value in [lo,hi].
func Int(name string, lo, hi int) int { return int(get(name).V) }

// Choose returns a value in [0,n); the executor forks on it.
func Choose(name string, n int) int { return int(get(name).V) }

// Bytes returns an arbitrary slice with lo <= len <= hi and cap == len.
func Bytes(name string, lo, hi int) []byte { return mk(get(name)) }

// BytesCap is Bytes with an arbitrary capacity up to maxCap; the bytes between
// length and capacity are arbitrary too.
func BytesCap(name string, lo, hi, maxCap int) []byte { return mk(get(name)) }

// Str returns an arbitrary string.
func Str(name string, lo, hi int) string { return string(mk(get(name))) }

func mk(in input) []byte {
	c := in.Cap
	if c < in.Len {
		c = in.Len
	}
	b := make([]byte, c)
	if in.Def != 0 {
		for i := range b {
			b[i] = in.Def
		}
	}
	for k, v := range in.At {
		i, err := strconv.ParseUint(k, 10, 64)
		if err == nil && i < uint64(c) {
			b[i] = v
		}
	}
	return b[:in.Len:c]
}

func Assume(c bool) {
	if !c {
		fmt.Println("REPLAY-ASSUME")
		os.Exit(3)
	}
}

func fail(msg string) {
	fmt.Println("ASSERT-FAIL", msg)
	os.Exit(1)
}

func Assert(c bool, msg string) {
	if !c {
		fail(msg)
	}
}

func AssertBytesEq(a, b []byte, msg string) {
	if !bytes.Equal(a, b) {
		fail(msg + fmt.Sprintf(": got %s want %s", short(a), short(b)))
	}
}

func AssertStrEq(a, b string, msg string) {
	if a != b {
		fail(msg + fmt.Sprintf(": got %s want %s", short([]byte(a)), short([]byte(b))))
	}
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x...(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x(%d bytes)", b, len(b))
}

// Reach marks a point that some path must be able to reach.
func Reach(label string) {
	if !perG {
		fmt.Println("REACH", label)
	}
}

// Clone copies the contents of b; CloneStr those of s.
func Clone(b []byte) []byte    { return append(make([]byte, 0, len(b)), b...) }
func CloneStr(s string) string { return string(append([]byte(nil), s...)) }

// Flip inverts every byte of b.
func Flip(b []byte) {
	for i := range b {
		b[i] ^= 0xff
	}
}

// Tail is b[len(b):cap(b)].
func Tail(b []byte) []byte { return b[len(b):cap(b)] }

// SameBase reports whether a points into the array b points into.
func SameBase(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	pa := uintptr(unsafe.Pointer(unsafe.SliceData(a)))
	pb := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return pa < pb+uintptr(cap(b)) && pb < pa+uintptr(cap(a))
}

// Reaches reports whether the array of b can be reached from v.
func Reaches(v any, b []byte) bool {
	if cap(b) == 0 {
		return false
	}
	lo := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	hi := lo + uintptr(cap(b))
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value) bool
	walk = func(v reflect.Value) bool {
		switch v.Kind() {
		case reflect.Pointer:
			p := v.Pointer()
			if p == 0 || seen[p] {
				return false
			}
			seen[p] = true
			if p >= lo && p < hi {
				return true
			}
			return walk(v.Elem())
		case reflect.Interface:
			return !v.IsNil() && walk(v.Elem())
		case reflect.Slice:
			p := v.Pointer()
			if v.Cap() > 0 && p >= lo && p < hi {
				return true
			}
			if v.Type().Elem().Kind() == reflect.Uint8 {
				return false
			}
			for i := 0; i < v.Len(); i++ {
				if walk(v.Index(i)) {
					return true
				}
			}
		case reflect.String:
			s := v.String()
			p := uintptr(unsafe.Pointer(unsafe.StringData(s)))
			return len(s) > 0 && p >= lo && p < hi
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if walk(v.Field(i)) {
					return true
				}
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				if walk(v.Index(i)) {
					return true
				}
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				if walk(k) || walk(v.MapIndex(k)) {
					return true
				}
			}
		}
		return false
	}
	return walk(reflect.ValueOf(v))
}

// H_rt_ErrorsIs stands in for errors.Is under the executor.
func H_rt_ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if eq(err, target) {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		default:
			return false
		}
	}
}

func eq(a, b error) (r bool) {
	defer func() {
		if recover() != nil {
			r = false
		}
	}()
	return a == b
}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

// Concat is a new slice, len == cap, holding a followed by b.
func Concat(a, b []byte) []byte {
	r := make([]byte, len(a)+len(b))
	copy(r, a)
	copy(r[len(a):], b)
	return r
}

// AliasStr is a string sharing the memory of b.
func AliasStr(b []byte) string { return unsafe.String(unsafe.SliceData(b), len(b)) }

// Rest returns the byte slice held by a decoder whose only state is one.
func Rest(v any) ([]byte, bool) {
	p := reflect.ValueOf(v)
	if p.Kind() != reflect.Pointer || p.IsNil() || p.Elem().Kind() != reflect.Struct || p.Elem().NumField() != 1 {
		return nil, false
	}
	f := p.Elem().Field(0)
	if f.Kind() != reflect.Slice || f.Type().Elem().Kind() != reflect.Uint8 {
		return nil, false
	}
	return unsafe.Slice((*byte)(f.UnsafePointer()), f.Len()), true
}

var allocMark, allocLimit uint64

// AllocLimit bounds the memory allocated until AllocDone, in bytes.
func AllocLimit(n int) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	allocMark, allocLimit = m.TotalAlloc, uint64(n)
}

func AllocDone() {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.TotalAlloc-allocMark > allocLimit {
		fail("memory use is bounded by the input")
	}
}
