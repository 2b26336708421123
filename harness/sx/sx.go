// Package sx is the interface between the harnesses and the engine. The
// symbolic engine intercepts these functions; the bodies below are used by the
// native build, which replays input vectors against the compiled code.
package sx

import "fmt"

type (
	// AssumeFailed ends a run whose inputs are outside the assumptions.
	AssumeFailed struct{}
	// Violation ends a run in which an assertion failed.
	Violation struct{ Msg string }
	// ShortVector ends a run that asks for more inputs than recorded.
	ShortVector struct{}
)

var (
	vec    []uint64
	pos    int
	params map[string]int
	obs    []string
	known  []string
)

// Reset prepares a native run.
func Reset(v []uint64, p map[string]int) {
	vec, pos, params, obs, known = v, 0, p, nil, nil
}

// Result returns what a native run recorded.
func Result() (o, k []string) { return obs, known }

func next() uint64 {
	if pos >= len(vec) {
		panic(ShortVector{})
	}
	v := vec[pos]
	pos++
	return v
}

// Byte is any byte.
func Byte() byte { return byte(next()) }

// Int is any int.
func Int() int { return int(next()) }

// Bool is any bool.
func Bool() bool { return next() != 0 }

// Choice is any of 0..n-1 (explored as separate paths).
func Choice(n int) int {
	if n <= 1 {
		next()
		return 0
	}
	return int(next())
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(Violation{msg})
	}
}

// Reach marks a point that has to be reachable.
func Reach(label string) {}

// Obs records an observation that engine and native run have to agree on.
func Obs(s string) { obs = append(obs, fmt.Sprintf("%q", s)) }

// Known records that a listed finding was hit.
func Known(id string) { known = append(known, id) }

// Param is a bound set by the check.
func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return v
	}
	return def
}

// IteInt, IteBool, And, Or and StrEq do not fork in the engine.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteBool(c, a, b bool) bool {
	if c {
		return a
	}
	return b
}
func And(a, b bool) bool       { return a && b }
func Or(a, b bool) bool        { return a || b }
func StrEq(a, b string) bool   { return a == b }
func Pin(s string) string      { return s }
func Concrete(s string) string { return s }

// Symbolic tells whether the engine is running the harness.
func Symbolic() bool { return false }

// Str is any string of exactly n bytes.
func Str(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return string(b)
}

// StrUpTo is any string of at most n bytes.
func StrUpTo(n int) string { return Str(Choice(n + 1)) }
