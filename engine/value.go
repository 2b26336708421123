package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Value is the run-time representation of a Go value:
//
//	bool, integers  N (zero-extended) or P=*Term
//	floats          N = math.Float64bits
//	string          P = string | *SStr (nil = "")
//	pointer         P = *Value (cell) or nil
//	slice           P = []Value (capacity and aliasing are native)
//	struct, array   P = *Agg
//	map             P = *Map
//	func            P = *Closure
//	interface       P = *Iface or nil
//	tuple           P = Tuple
type Value struct {
	P any
	N uint64
}

type Agg struct{ f []Value }

// SStr is a string of known length with at least one symbolic byte.
type SStr struct{ b []Value }

type Tuple []Value

type Iface struct {
	t types.Type // canonical
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	nat func(w *Worker, args []Value) Value // engine-implemented function
}

type mapEnt struct {
	k, v Value
	live bool
}

type Map struct {
	kt   types.Type
	ents []mapEnt
	idx  map[any]int // concrete comparable keys -> index in ents
	nsym int         // entries whose key is symbolic
	n    int
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
}

// sdPtr is the result of unsafe.SliceData / unsafe.StringData.
type sdPtr struct {
	s   []Value
	str Value
}

type rangeIter struct {
	str  Value
	pos  int
	m    *Map
	keys []int
	i    int
}

func vbool(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}
func vint(n int) Value    { return Value{N: uint64(n)} }
func vstr(s string) Value { return Value{P: s} }
func vterm(t *Term) Value {
	if t.isC() {
		return Value{N: t.V}
	}
	return Value{P: t}
}
func vfloat(f float64) Value { return Value{N: math.Float64bits(f)} }

func symOf(v Value) *Term {
	t, _ := v.P.(*Term)
	return t
}

func strLen(v Value) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(unsupported(fmt.Sprintf("strLen of %T", v.P)))
}

func strIdx(v Value, i int) Value {
	switch s := v.P.(type) {
	case string:
		return Value{N: uint64(s[i])}
	case *SStr:
		return s.b[i]
	}
	panic(unsupported(fmt.Sprintf("strIdx of %T", v.P)))
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.P.(type) {
	case nil:
		return v
	case string:
		return Value{P: s[lo:hi]}
	case *SStr:
		return mkStr(s.b[lo:hi])
	}
	panic(unsupported("strSlice"))
}

// strBytes returns the bytes of a string value (shared, read-only).
func strBytes(v Value) []Value {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i].N = uint64(s[i])
		}
		return r
	case *SStr:
		return s.b
	}
	panic(unsupported(fmt.Sprintf("strBytes of %T", v.P)))
}

// mkStr builds a string value from bytes; the slice must not be mutated later.
func mkStr(b []Value) Value {
	for i := range b {
		if b[i].P != nil {
			return Value{P: &SStr{b: b}}
		}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(b[i].N)
	}
	return Value{P: string(bs)}
}

func mkStrCopy(b []Value) Value {
	for i := range b {
		if b[i].P != nil {
			return Value{P: &SStr{b: append([]Value(nil), b...)}}
		}
	}
	return mkStr(b)
}

func strConcat(a, b Value) Value {
	if sa, ok := a.P.(string); ok {
		if sb, ok := b.P.(string); ok {
			return Value{P: sa + sb}
		}
	}
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	return mkStr(append(append(r, x...), y...))
}

func concStr(v Value) (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func sliceOf(v Value) []Value {
	if v.P == nil {
		return nil
	}
	s, ok := v.P.([]Value)
	if !ok {
		panic(unsupported(fmt.Sprintf("sliceOf %T", v.P)))
	}
	return s
}

func copyVal(v Value) Value {
	if a, ok := v.P.(*Agg); ok {
		return Value{P: copyAgg(a)}
	}
	return v
}

func copyAgg(a *Agg) *Agg {
	n := &Agg{f: make([]Value, len(a.f))}
	for i := range a.f {
		if x, ok := a.f[i].P.(*Agg); ok {
			n.f[i].P = copyAgg(x)
		} else {
			n.f[i] = a.f[i]
		}
	}
	return n
}

type zeroInfo struct {
	agg  bool
	n    int
	elem []types.Type // struct fields
	el   types.Type   // array element
}

func (w *Worker) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isReflectValue(t) {
			return Value{}
		}
		a := &Agg{f: make([]Value, u.NumFields())}
		for i := range a.f {
			a.f[i] = w.zero(u.Field(i).Type())
		}
		return Value{P: a}
	case *types.Array:
		n := int(u.Len())
		a := &Agg{f: make([]Value, n)}
		if isAggType(u.Elem()) {
			for i := range a.f {
				a.f[i] = w.zero(u.Elem())
			}
		}
		return Value{P: a}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = w.zero(u.At(i).Type())
		}
		return Value{P: tp}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Value{P: ""}
		}
	}
	return Value{}
}

func isAggType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == "Value" && o.Pkg() != nil && o.Pkg().Path() == "reflect"
}

// width and signedness of an integer/bool type; ok=false for others.
func intInfo(t types.Type) (w uint8, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) (bits int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false
	}
	switch b.Kind() {
	case types.Float32:
		return 32, true
	case types.Float64, types.UntypedFloat:
		return 64, true
	}
	return 0, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// control-flow signals inside the engine

type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

type pathEnd struct{ why string } // assume(false), step limit, ...

// goPanic is a Go-level panic of the program under test.
type goPanic struct {
	v       Value // interface value
	runtime string
	where   string
	goexit  bool
}
