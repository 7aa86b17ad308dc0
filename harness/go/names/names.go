// Package names holds the harnesses of the naming helpers (C25).
package names

import (
	v1 "github.com/loopholelabs/polyglot/utils"
	v2 "github.com/loopholelabs/polyglot/v2/utils"

	"verif/harness/sym"

	"google.golang.org/protobuf/reflect/protoreflect"
)

func lower(c byte) bool { return c-'a' < 26 }
func upper(c byte) bool { return c-'A' < 26 }
func digit(c byte) bool { return c-'0' < 10 }

func fold(c byte) byte {
	if upper(c) {
		return c + ('a' - 'A')
	}
	return c
}

// name is any legal protobuf name of at most max bytes; with dots, a full name.
func name(max int, dots bool) string {
	n := 1 + sym.Choose("len", max)
	s := sym.Str("name", n, n)
	start := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' || lower(c) || upper(c) {
			start = false
			continue
		}
		if dots && c == '.' {
			sym.Assume(!start)
			start = true
			continue
		}
		sym.Assume(digit(c) && !start)
	}
	sym.Assume(!start)
	return s
}

const pad = "n_a_longName_of_many_words2_andDigits3x_HTTPServer_that_GoesOn_for_overSixtyFour_bytes_"

// long is a long name: the arbitrary part stands in front of, inside or behind a known one.
func long() string {
	s := name(2, false)
	switch sym.Choose("where", 4) {
	case 0:
		return s + "_" + pad[:29] + "z"
	case 1:
		return pad[:len(pad)-1] + s
	case 2:
		return pad + s
	}
	return pad[:20] + s + pad[20:60]
}

// next is the position of the first letter or digit of s at or after i.
func next(s string, i int) int {
	for i < len(s) && (s[i] == '_' || s[i] == '.') {
		i++
	}
	return i
}

// kept: got has the letters and digits of s, in order, but for case.
func kept(got, s string, what string) {
	i, j := next(got, 0), next(s, 0)
	for i < len(got) && j < len(s) {
		sym.Assert(fold(got[i]) == fold(s[j]), what+" keeps every letter and digit")
		i, j = next(got, i+1), next(s, j+1)
	}
	sym.Assert(i == len(got) && j == len(s), what+" adds and drops no letter or digit")
}

func identifier(s string, what string) {
	for i := 0; i < len(s); i++ {
		c := s[i]
		sym.Assert(c == '_' || lower(c) || upper(c) || (digit(c) && i > 0), what+" gives an identifier")
	}
}

func camel(f func(string) string, s string) {
	got := f(s)
	sym.Assert(len(got) > 0, "CamelCase gives an identifier")
	identifier(got, "CamelCase")
	sym.Assert(upper(got[0]), "CamelCase gives an exported identifier")
	i, j := 0, 0
	if s[0] == '_' {
		sym.Assert(got[0] == 'X', "CamelCase puts X for a leading underscore")
		i, j = 1, 1
	}
	// dots and the underscores before a lower case letter go, all else stays
	for ; j < len(s); j++ {
		if s[j] == '.' || (s[j] == '_' && j+1 < len(s) && lower(s[j+1])) {
			continue
		}
		sym.Assert(i < len(got), "CamelCase drops no letter, digit or other underscore")
		sym.Assert(fold(got[i]) == fold(s[j]), "CamelCase keeps every letter, digit and other underscore")
		i++
	}
	sym.Assert(i == len(got), "CamelCase adds nothing else")
	sym.Assert(f(got) == got, "CamelCase leaves its own result unchanged")
	sym.Reach("done")
}

// words: the letter after a dot, or after an underscore that is dropped, is upper case
func words(f func(string) string, s string) {
	got := f(s)
	sym.Assume(s[0] != '_')
	i, j := next(got, 0), next(s, 0)
	for i < len(got) && j < len(s) {
		if j == 0 || s[j-1] == '.' || s[j-1] == '_' || digit(s[j-1]) {
			sym.Assert(!lower(got[i]), "CamelCase starts every word in upper case")
		} else {
			sym.Assert(got[i] == s[j], "CamelCase changes the case only at the start of a word")
		}
		i, j = next(got, i+1), next(s, j+1)
	}
	sym.Assert(i == len(got) && j == len(s), "CamelCase adds and drops no letter or digit")
	sym.Reach("done")
}

func snake(f func(string) string, s string) {
	got := f(s)
	for i := 0; i < len(got); i++ {
		sym.Assert(!upper(got[i]), "SnakeCase gives lower case only")
	}
	identifier(got, "SnakeCase")
	kept(got, s, "SnakeCase")
	sym.Assert(f(got) == got, "SnakeCase leaves its own result unchanged")
	// no underscore is dropped, and a new one stands before a capital only
	i := 0
	for j := 0; j < len(s); j++ {
		if upper(s[j]) && j > 0 && !upper(s[j-1]) {
			sym.Assert(i < len(got) && got[i] == '_', "SnakeCase separates a capital from what is before it")
			i++
		}
		sym.Assert(i < len(got) && got[i] == fold(s[j]), "SnakeCase adds underscores before the first of a run of capitals only")
		i++
	}
	sym.Assert(i == len(got), "SnakeCase adds nothing at the end")
	sym.Reach("done")
}

func first(f func(string) string, s string) {
	got := f(s)
	sym.Assert(len(got) == len(s), "the lower-first form has the same length")
	sym.Assert(got[0] == fold(s[0]), "the first letter is in lower case")
	sym.Assert(got[1:] == s[1:], "the rest is unchanged")
	sym.Reach("done")
}

func empty(f func(string) string) {
	sym.Assert(f("") == "", "the empty name stays empty")
}

func same(s string) {
	sym.Assert(v1.CamelCase(s) == v2.CamelCase(s), "both modules camel-case alike")
	sym.Assert(v1.SnakeCase(s) == v2.SnakeCase(s), "both modules snake-case alike")
	sym.Assert(v1.FirstLowerCase(s) == v2.FirstLowerCase(s), "both modules lower the first letter alike")
	sym.Assert(v1.CamelCaseName(protoreflect.Name(s)) == v1.CamelCase(s), "CamelCaseName is CamelCase")
	sym.Assert(v2.CamelCaseName(protoreflect.Name(s)) == v2.CamelCase(s), "CamelCaseName is CamelCase")
	sym.Assert(v1.SnakeCaseName(protoreflect.Name(s)) == v1.SnakeCase(s), "SnakeCaseName is SnakeCase")
	sym.Assert(v2.SnakeCaseName(protoreflect.Name(s)) == v2.SnakeCase(s), "SnakeCaseName is SnakeCase")
	sym.Assert(v1.CamelCaseFullName(protoreflect.FullName(s)) == v1.CamelCase(s), "CamelCaseFullName is CamelCase")
	sym.Assert(v2.CamelCaseFullName(protoreflect.FullName(s)) == v2.CamelCase(s), "CamelCaseFullName is CamelCase")
	sym.Assert(v1.FirstLowerCaseName(protoreflect.Name(s)) == v1.FirstLowerCase(s), "FirstLowerCaseName is FirstLowerCase")
	sym.Assert(v2.FirstLowerCaseName(protoreflect.Name(s)) == v2.FirstLowerCase(s), "FirstLowerCaseName is FirstLowerCase")
	sym.Assert(v1.LowercaseCamelCaseName(protoreflect.Name(s)) == v1.LowercaseCamelCase(s), "LowercaseCamelCaseName is LowercaseCamelCase")
	sym.Assert(v2.LowercaseCamelCaseName(protoreflect.Name(s)) == v2.LowercaseCamelCase(s), "LowercaseCamelCaseName is LowercaseCamelCase")
	sym.Reach("done")
}

// AppendString joins its arguments
func join(f func(...string) string) {
	a, b, c := sym.Str("a", 0, 1<<20), sym.Str("b", 0, 1<<20), sym.Str("c", 0, 1<<20)
	sym.Assert(f(a, b, c) == a+b+c, "AppendString joins")
	sym.Assert(f() == "", "AppendString of nothing is empty")
	sym.Reach("done")
}

func H_C25_empty() {
	for _, f := range []func(string) string{v1.CamelCase, v1.SnakeCase, v1.FirstLowerCase, v1.LowercaseCamelCase, v2.CamelCase, v2.SnakeCase, v2.FirstLowerCase, v2.LowercaseCamelCase} {
		empty(f)
	}
	sym.Reach("done")
}
func H_C25_v1_join()  { join(v1.AppendString) }
func H_C25_v2_join()  { join(v2.AppendString) }
func H_C25_v1_first() { first(v1.FirstLowerCase, name(4, false)) }
func H_C25_v2_first() { first(v2.FirstLowerCase, name(4, false)) }
func H_C25_v1_lcc()   { first(v1.LowercaseCamelCase, name(4, false)) }
func H_C25_v2_lcc()   { first(v2.LowercaseCamelCase, name(4, false)) }
