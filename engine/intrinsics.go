package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

const sxPath = "github.com/wenerme/go-miniquery/zzverif/sx"

var intrinsics map[string]intrinsicFn

func tup(v ...Value) Value { return Value{P: Tuple(v)} }

func (w *Worker) str(v Value) string {
	s, ok := concStr(w.pin(v))
	if !ok {
		panic(unsupported("symbolic string where a concrete one is needed"))
	}
	return s
}

// containsSym reports whether v holds symbolic data at its surface.
func surfaceSym(v Value) bool {
	switch x := v.P.(type) {
	case *Term, *SStr:
		return true
	case *Iface:
		return x != nil && surfaceSym(x.v)
	}
	return false
}

func init() {
	m := map[string]intrinsicFn{}
	intrinsics = m
	sx := func(n string, f intrinsicFn) { m[sxPath+"."+n] = f }
	sx("Byte", func(w *Worker, fr *frame, a []Value) Value { return w.newVar('b', 8) })
	sx("Int", func(w *Worker, fr *frame, a []Value) Value { return w.newVar('i', 64) })
	sx("Bool", func(w *Worker, fr *frame, a []Value) Value { return w.newVar('o', 0) })
	sx("Choice", func(w *Worker, fr *frame, a []Value) Value {
		n := w.choose(int(w.conc(a[0]).N))
		w.inputs = append(w.inputs, inputEv{kind: 'c', val: uint64(n)})
		return vint(n)
	})
	sx("Assume", func(w *Worker, fr *frame, a []Value) Value { w.assume(a[0]); return Value{} })
	sx("Assert", func(w *Worker, fr *frame, a []Value) Value {
		s, ok := concStr(a[1])
		if !ok {
			s = w.evalStr(a[1], w.model)
		}
		w.assertV(a[0], s)
		return Value{}
	})
	sx("Reach", func(w *Worker, fr *frame, a []Value) Value {
		w.sh.mu.Lock()
		w.sh.reach[w.str(a[0])]++
		w.sh.mu.Unlock()
		return Value{}
	})
	sx("Obs", func(w *Worker, fr *frame, a []Value) Value { w.obs = append(w.obs, a[0]); return Value{} })
	sx("Known", func(w *Worker, fr *frame, a []Value) Value {
		w.knownHit = append(w.knownHit, w.str(a[0]))
		return Value{}
	})
	sx("Param", func(w *Worker, fr *frame, a []Value) Value {
		if v, ok := w.sh.params[w.str(a[0])]; ok {
			return vint(v)
		}
		return a[1]
	})
	sx("IteInt", func(w *Worker, fr *frame, a []Value) Value {
		return vterm(w.tc.Ite(w.term(a[0], 0), w.term(a[1], 64), w.term(a[2], 64)))
	})
	sx("IteBool", func(w *Worker, fr *frame, a []Value) Value {
		return vterm(w.tc.Ite(w.term(a[0], 0), w.term(a[1], 0), w.term(a[2], 0)))
	})
	sx("And", func(w *Worker, fr *frame, a []Value) Value {
		return vterm(w.tc.And(w.term(a[0], 0), w.term(a[1], 0)))
	})
	sx("Or", func(w *Worker, fr *frame, a []Value) Value {
		return vterm(w.tc.Or(w.term(a[0], 0), w.term(a[1], 0)))
	})
	// Pin returns the string with all bytes that are fixed on this path made concrete.
	sx("Pin", func(w *Worker, fr *frame, a []Value) Value { return w.pin(a[0]) })
	// Concrete makes a string concrete, forking over all feasible contents.
	sx("Concrete", func(w *Worker, fr *frame, a []Value) Value {
		b := strBytes(a[0])
		nb := make([]Value, len(b))
		for i := range b {
			nb[i] = w.conc(b[i])
		}
		return mkStr(nb)
	})
	// StrEq compares without forking.
	sx("StrEq", func(w *Worker, fr *frame, a []Value) Value { return w.strEq(a[0], a[1]) })
	sx("Symbolic", func(w *Worker, fr *frame, a []Value) Value { return Value{N: 1} })

	nop := func(w *Worker, fr *frame, a []Value) Value { return Value{} }
	// runtime, sync
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "runtime.Gosched",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Disable", "internal/race.Enable", "internal/race.ReleaseMerge",
		"(*sync.Cond).Broadcast", "(*sync.Cond).Signal", "(*internal/godebug.Setting).IncNonDefault",
		"log/slog.Error", "log/slog.Info", "log/slog.Warn", "log/slog.Debug",
		"(*log/slog.Logger).Error", "(*log/slog.Logger).Info", "(*log/slog.Logger).Warn", "(*log/slog.Logger).Debug",
		"log.Printf", "log.Println", "log.Print", "fmt.Print", "fmt.Println", "fmt.Printf"} {
		m[n] = nop
	}
	m["fmt.Print"] = func(w *Worker, fr *frame, a []Value) Value { return tup(Value{}, Value{}) }
	m["fmt.Println"] = m["fmt.Print"]
	m["fmt.Printf"] = m["fmt.Print"]
	for _, n := range []string{"log/slog.With", "(*log/slog.Logger).With", "log/slog.Default", "(*log/slog.Logger).WithGroup"} {
		m[n] = func(w *Worker, fr *frame, a []Value) Value {
			p := new(Value)
			return Value{P: p}
		}
	}
	m["(*sync.Mutex).TryLock"] = func(w *Worker, fr *frame, a []Value) Value { return Value{N: 1} }
	m["(*internal/godebug.Setting).Value"] = func(w *Worker, fr *frame, a []Value) Value { return vstr("") }
	m["internal/godebug.New"] = func(w *Worker, fr *frame, a []Value) Value { return Value{P: new(Value)} }
	m["internal/abi.NoEscape"] = func(w *Worker, fr *frame, a []Value) Value { return a[0] }
	m["internal/abi.Escape"] = func(w *Worker, fr *frame, a []Value) Value { return a[0] }
	m["runtime.Callers"] = func(w *Worker, fr *frame, a []Value) Value { return Value{} }
	m["runtime.Caller"] = func(w *Worker, fr *frame, a []Value) Value {
		return tup(Value{}, vstr("file.go"), vint(1), Value{})
	}
	m["runtime.FuncForPC"] = func(w *Worker, fr *frame, a []Value) Value { return Value{} }
	m["runtime.GOMAXPROCS"] = func(w *Worker, fr *frame, a []Value) Value { return Value{N: 1} }
	m["runtime.NumCPU"] = m["runtime.GOMAXPROCS"]
	m["os.Getenv"] = func(w *Worker, fr *frame, a []Value) Value { return vstr("") }
	m["os.Getwd"] = func(w *Worker, fr *frame, a []Value) Value { return tup(vstr("/"), Value{}) }
	m["syscall.Getenv"] = func(w *Worker, fr *frame, a []Value) Value { return tup(vstr(""), Value{}) }
	m["(*sync.Once).Do"] = func(w *Worker, fr *frame, a []Value) Value {
		p := w.ptr(a[0])
		key := p
		if w.side[key] != nil {
			return Value{}
		}
		w.side[key] = true
		w.addUndo(func() { delete(w.side, key) })
		c, _ := a[1].P.(*Closure)
		return w.callClosure(c, nil, nil)
	}
	m["(*sync.Pool).Get"] = func(w *Worker, fr *frame, a []Value) Value {
		// always a fresh object
		p := w.ptr(a[0])
		ag := p.P.(*Agg)
		c, _ := ag.f[len(ag.f)-1].P.(*Closure)
		if c == nil {
			return Value{}
		}
		return w.callClosure(c, nil, nil)
	}
	m["(*sync.Pool).Put"] = nop
	smap := func(w *Worker, a Value) *Map {
		p := w.ptr(a)
		mm, _ := w.side[p].(*Map)
		if mm == nil {
			mm = newMap(types.NewInterfaceType(nil, nil))
			w.side[p] = mm
			w.addUndo(func() { delete(w.side, p) })
		}
		return mm
	}
	m["(*sync.Map).Load"] = func(w *Worker, fr *frame, a []Value) Value {
		mm := smap(w, a[0])
		if i := w.mapFind(mm, a[1]); i >= 0 {
			return tup(mm.ents[i].v, Value{N: 1})
		}
		return tup(Value{}, Value{})
	}
	m["(*sync.Map).Store"] = func(w *Worker, fr *frame, a []Value) Value {
		w.mapSet(smap(w, a[0]), a[1], a[2])
		return Value{}
	}
	m["(*sync.Map).LoadOrStore"] = func(w *Worker, fr *frame, a []Value) Value {
		mm := smap(w, a[0])
		if i := w.mapFind(mm, a[1]); i >= 0 {
			return tup(mm.ents[i].v, Value{N: 1})
		}
		w.mapSet(mm, a[1], a[2])
		return tup(a[2], Value{})
	}
	m["(*sync.Map).Delete"] = func(w *Worker, fr *frame, a []Value) Value {
		w.mapDelete(smap(w, a[0]), a[1])
		return Value{}
	}
	m["(*sync.Map).LoadAndDelete"] = func(w *Worker, fr *frame, a []Value) Value {
		mm := smap(w, a[0])
		if i := w.mapFind(mm, a[1]); i >= 0 {
			v := mm.ents[i].v
			w.mapDelete(mm, a[1])
			return tup(v, Value{N: 1})
		}
		return tup(Value{}, Value{})
	}
	m["(*sync.Map).Range"] = func(w *Worker, fr *frame, a []Value) Value {
		mm := smap(w, a[0])
		c, _ := a[1].P.(*Closure)
		for i := 0; i < len(mm.ents); i++ {
			if mm.ents[i].live {
				if !w.truth(w.callClosure(c, []Value{mm.ents[i].k, mm.ents[i].v}, nil)) {
					break
				}
			}
		}
		return Value{}
	}
	// atomics
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		m["sync/atomic.Load"+t] = func(w *Worker, fr *frame, a []Value) Value { return w.load(a[0]) }
		m["sync/atomic.Store"+t] = func(w *Worker, fr *frame, a []Value) Value { w.store(w.ptr(a[0]), a[1]); return Value{} }
		m["sync/atomic.Swap"+t] = func(w *Worker, fr *frame, a []Value) Value {
			o := w.load(a[0])
			w.store(w.ptr(a[0]), a[1])
			return o
		}
		m["sync/atomic.CompareAndSwap"+t] = func(w *Worker, fr *frame, a []Value) Value {
			o := w.load(a[0])
			if o.P == a[1].P && o.N == a[1].N {
				w.store(w.ptr(a[0]), a[2])
				return Value{N: 1}
			}
			return Value{}
		}
	}
	for _, t := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}} {
		m["sync/atomic.Add"+t.n] = func(w *Worker, fr *frame, a []Value) Value {
			v := Value{N: (w.load(a[0]).N + a[1].N) & maskW(t.w)}
			w.store(w.ptr(a[0]), v)
			return v
		}
	}
	// bytealg / strings
	idxByte := func(w *Worker, b []Value, c Value) Value {
		for i := range b {
			if w.truth(vterm(w.tc.Eq(w.term(b[i], 8), w.term(c, 8)))) {
				return vint(i)
			}
		}
		return vint(-1)
	}
	m["internal/bytealg.IndexByteString"] = func(w *Worker, fr *frame, a []Value) Value {
		if s, ok := concStr(a[0]); ok && a[1].P == nil {
			return vint(strings.IndexByte(s, byte(a[1].N)))
		}
		return idxByte(w, strBytes(a[0]), a[1])
	}
	m["internal/bytealg.IndexByte"] = func(w *Worker, fr *frame, a []Value) Value { return idxByte(w, sliceOf(a[0]), a[1]) }
	m["internal/bytealg.LastIndexByteString"] = func(w *Worker, fr *frame, a []Value) Value {
		b := strBytes(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if w.truth(vterm(w.tc.Eq(w.term(b[i], 8), w.term(a[1], 8)))) {
				return vint(i)
			}
		}
		return vint(-1)
	}
	cnt := func(w *Worker, b []Value, c Value) Value {
		n := 0
		for i := range b {
			if w.truth(vterm(w.tc.Eq(w.term(b[i], 8), w.term(c, 8)))) {
				n++
			}
		}
		return vint(n)
	}
	m["internal/bytealg.CountString"] = func(w *Worker, fr *frame, a []Value) Value { return cnt(w, strBytes(a[0]), a[1]) }
	m["internal/bytealg.Count"] = func(w *Worker, fr *frame, a []Value) Value { return cnt(w, sliceOf(a[0]), a[1]) }
	m["internal/bytealg.Equal"] = func(w *Worker, fr *frame, a []Value) Value {
		return w.strEq(mkStrCopy(sliceOf(a[0])), mkStrCopy(sliceOf(a[1])))
	}
	m["bytes.Equal"] = m["internal/bytealg.Equal"]
	m["internal/bytealg.CompareString"] = func(w *Worker, fr *frame, a []Value) Value {
		if w.truth(w.strEq(a[0], a[1])) {
			return Value{}
		}
		if w.truth(w.strLess(a[0], a[1])) {
			return vint(-1)
		}
		return vint(1)
	}
	m["internal/bytealg.Compare"] = func(w *Worker, fr *frame, a []Value) Value {
		return m["internal/bytealg.CompareString"](w, fr, []Value{mkStrCopy(sliceOf(a[0])), mkStrCopy(sliceOf(a[1]))})
	}
	m["strings.Compare"] = m["internal/bytealg.CompareString"]
	m["internal/bytealg.MakeNoZero"] = func(w *Worker, fr *frame, a []Value) Value {
		n := int(w.conc(a[0]).N)
		c := roundUp(n, true)
		return Value{P: make([]Value, n, c)}
	}
	index := func(w *Worker, s, sub Value) Value {
		if x, ok := concStr(s); ok {
			if y, ok := concStr(sub); ok {
				return vint(strings.Index(x, y))
			}
		}
		n, k := strLen(s), strLen(sub)
		for i := 0; i+k <= n; i++ {
			if w.truth(w.strEq(strSlice(s, i, i+k), sub)) {
				return vint(i)
			}
		}
		return vint(-1)
	}
	m["strings.Index"] = func(w *Worker, fr *frame, a []Value) Value { return index(w, a[0], a[1]) }
	m["internal/stringslite.Index"] = m["strings.Index"]
	clone := func(w *Worker, fr *frame, a []Value) Value { return a[0] }
	m["internal/stringslite.Clone"] = clone
	m["strings.Clone"] = clone
	m["bytes.Index"] = func(w *Worker, fr *frame, a []Value) Value {
		return index(w, mkStrCopy(sliceOf(a[0])), mkStrCopy(sliceOf(a[1])))
	}
	m["strings.HasPrefix"] = func(w *Worker, fr *frame, a []Value) Value {
		if strLen(a[0]) < strLen(a[1]) {
			return Value{}
		}
		return w.strEq(strSlice(a[0], 0, strLen(a[1])), a[1])
	}
	m["strings.HasSuffix"] = func(w *Worker, fr *frame, a []Value) Value {
		n, k := strLen(a[0]), strLen(a[1])
		if n < k {
			return Value{}
		}
		return w.strEq(strSlice(a[0], n-k, n), a[1])
	}
	// membership without forking on the position
	m["strings.Contains"] = func(w *Worker, fr *frame, a []Value) Value {
		s, sub := a[0], a[1]
		n, k := strLen(s), strLen(sub)
		r := w.tc.f
		for i := 0; i+k <= n; i++ {
			r = w.tc.Or(r, w.term(w.strEq(strSlice(s, i, i+k), sub), 0))
			if r == w.tc.t {
				break
			}
		}
		return vterm(r)
	}
	m["strings.ContainsAny"] = func(w *Worker, fr *frame, a []Value) Value {
		cs, ok := concStr(a[1])
		if !ok {
			return fallback
		}
		for i := 0; i < len(cs); i++ {
			if cs[i] >= 0x80 {
				return fallback
			}
		}
		r := w.tc.f
		for _, b := range strBytes(a[0]) {
			for i := 0; i < len(cs); i++ {
				r = w.tc.Or(r, w.tc.Eq(w.term(b, 8), w.tc.Const(8, uint64(cs[i]))))
			}
		}
		return vterm(r)
	}
	m["strings.ContainsRune"] = func(w *Worker, fr *frame, a []Value) Value {
		if a[1].P != nil || a[1].N >= 0x80 {
			return fallback
		}
		r := w.tc.f
		for _, b := range strBytes(a[0]) {
			r = w.tc.Or(r, w.tc.Eq(w.term(b, 8), w.tc.Const(8, a[1].N)))
		}
		return vterm(r)
	}
	isASCII := func(w *Worker, v Value) bool {
		b := strBytes(v)
		r := w.tc.t
		for i := range b {
			r = w.tc.And(r, w.tc.Bin(OUlt, w.term(b[i], 8), w.tc.Const(8, 0x80)))
		}
		return w.br(r)
	}
	caseMap := func(lower bool) intrinsicFn {
		return func(w *Worker, fr *frame, a []Value) Value {
			v := w.pin(a[0])
			if s, ok := concStr(v); ok {
				if lower {
					return vstr(strings.ToLower(s))
				}
				return vstr(strings.ToUpper(s))
			}
			if !isASCII(w, v) {
				return fallback
			}
			b := strBytes(v)
			nb := make([]Value, len(b))
			for i := range b {
				nb[i] = w.foldByte(b[i], lower)
			}
			return mkStr(nb)
		}
	}
	m["strings.ToLower"] = caseMap(true)
	m["strings.ToUpper"] = caseMap(false)
	m["strings.EqualFold"] = func(w *Worker, fr *frame, a []Value) Value {
		x, y := w.pin(a[0]), w.pin(a[1])
		sx, ok1 := concStr(x)
		sy, ok2 := concStr(y)
		if ok1 && ok2 {
			return vbool(strings.EqualFold(sx, sy))
		}
		if !isASCII(w, x) || !isASCII(w, y) {
			return fallback
		}
		if strLen(x) != strLen(y) {
			return Value{}
		}
		p, q := strBytes(x), strBytes(y)
		r := w.tc.t
		for i := range p {
			r = w.tc.And(r, w.tc.Eq(w.term(w.foldByte(p[i], true), 8), w.term(w.foldByte(q[i], true), 8)))
		}
		return vterm(r)
	}
	m["(*strings.Builder).String"] = func(w *Worker, fr *frame, a []Value) Value {
		return mkStrCopy(sliceOf(w.ptr(a[0]).P.(*Agg).f[1]))
	}
	m["unicode/utf8.RuneLen"] = func(w *Worker, fr *frame, a []Value) Value { return fallback }
	m["unicode/utf8.DecodeRuneInString"] = func(w *Worker, fr *frame, a []Value) Value {
		if strLen(a[0]) == 0 {
			return tup(Value{N: 0xFFFD}, Value{})
		}
		r, n := w.decodeRune(a[0], 0)
		return tup(r, vint(n))
	}
	m["unicode/utf8.DecodeRune"] = func(w *Worker, fr *frame, a []Value) Value {
		s := sliceOf(a[0])
		if len(s) == 0 {
			return tup(Value{N: 0xFFFD}, Value{})
		}
		if len(s) > 4 {
			s = s[:4]
		}
		r, n := w.decodeRune(mkStrCopy(s), 0)
		return tup(r, vint(n))
	}
	m["unicode/utf8.AppendRune"] = func(w *Worker, fr *frame, a []Value) Value {
		return w.appendSlice(a[0], w.encodeRune(a[1], 32), types.Typ[types.Uint8])
	}
	m["unicode/utf8.EncodeRune"] = func(w *Worker, fr *frame, a []Value) Value {
		b := w.encodeRune(a[1], 32)
		s := sliceOf(a[0])
		if len(s) < len(b) {
			w.rtPanic("index out of range")
		}
		for i := range b {
			w.store(&s[i], b[i])
		}
		return vint(len(b))
	}
	for name, f := range map[string]func(rune) bool{"IsSpace": unicode.IsSpace, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower,
		"IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsPrint": unicode.IsPrint, "IsPunct": unicode.IsPunct, "IsNumber": unicode.IsNumber,
		"IsControl": unicode.IsControl, "IsSymbol": unicode.IsSymbol, "IsGraphic": unicode.IsGraphic} {
		f := f
		g := func(w *Worker, fr *frame, a []Value) Value {
			if a[0].P == nil {
				return vbool(f(rune(int32(a[0].N))))
			}
			t := symOf(a[0])
			if !w.br(w.tc.Bin(OUlt, t, w.tc.Const(32, 0x80))) {
				return fallback
			}
			// ASCII: exact disjunction over runs
			r := w.tc.f
			for lo := 0; lo < 128; {
				if !f(rune(lo)) {
					lo++
					continue
				}
				hi := lo
				for hi+1 < 128 && f(rune(hi+1)) {
					hi++
				}
				r = w.tc.Or(r, w.tc.And(w.tc.Bin(OUle, w.tc.Const(32, uint64(lo)), t), w.tc.Bin(OUle, t, w.tc.Const(32, uint64(hi)))))
				lo = hi + 1
			}
			return vterm(r)
		}
		m["unicode."+name] = g
		if name == "IsPrint" {
			m["strconv.IsPrint"] = g
		}
	}
	for name, lower := range map[string]bool{"ToLower": true, "ToUpper": false} {
		lower := lower
		m["unicode."+name] = func(w *Worker, fr *frame, a []Value) Value {
			if a[0].P == nil {
				if lower {
					return Value{N: uint64(uint32(unicode.ToLower(rune(int32(a[0].N)))))}
				}
				return Value{N: uint64(uint32(unicode.ToUpper(rune(int32(a[0].N)))))}
			}
			t := symOf(a[0])
			if !w.br(w.tc.Bin(OUlt, t, w.tc.Const(32, 0x80))) {
				return fallback
			}
			return vterm(w.tc.Zext(32, w.term(w.foldByte(vterm(w.tc.Extract(8, t)), lower), 8)))
		}
	}
	// strconv on symbolic integers
	fmtInt := func(w *Worker, v Value, base Value) (Value, bool) {
		if symOf(v) == nil || base.P != nil || base.N != 10 {
			return Value{}, false
		}
		v = w.pin(v)
		if v.P == nil {
			return vstr(strconv.FormatInt(int64(v.N), 10)), true
		}
		tc := w.tc
		t := symOf(v)
		neg := w.br(tc.Bin(OSlt, t, tc.Const(64, 0)))
		if neg {
			t = tc.Bin(OSub, tc.Const(64, 0), t)
		}
		n := 1
		lim := uint64(10)
		for n < 20 && !w.br(tc.Bin(OUlt, t, tc.Const(64, lim))) {
			n++
			if n == 20 {
				break
			}
			lim *= 10
		}
		out := make([]Value, n)
		x := t
		for i := n - 1; i >= 0; i-- {
			d := tc.Bin(OURem, x, tc.Const(64, 10))
			out[i] = vterm(tc.Bin(OAdd, tc.Extract(8, d), tc.Const(8, '0')))
			x = tc.Bin(OUDiv, x, tc.Const(64, 10))
		}
		if neg {
			out = append([]Value{{N: '-'}}, out...)
		}
		return mkStr(out), true
	}
	m["strconv.FormatInt"] = func(w *Worker, fr *frame, a []Value) Value {
		if s, ok := fmtInt(w, a[0], a[1]); ok {
			return s
		}
		return fallback
	}
	m["strconv.Itoa"] = func(w *Worker, fr *frame, a []Value) Value {
		if s, ok := fmtInt(w, a[0], Value{N: 10}); ok {
			return s
		}
		return fallback
	}
	m["strconv.AppendInt"] = func(w *Worker, fr *frame, a []Value) Value {
		if s, ok := fmtInt(w, a[1], a[2]); ok {
			return w.appendSlice(a[0], strBytes(s), types.Typ[types.Uint8])
		}
		return fallback
	}
	// fmt's integer formatting on symbolic values (plain %d / %v)
	m["(*fmt.fmt).fmtInteger"] = func(w *Worker, fr *frame, a []Value) Value {
		// (f *fmt, u uint64, base int, isSigned bool, verb rune, digits string)
		if symOf(a[1]) == nil {
			return fallback
		}
		ag := w.ptr(a[0]).P.(*Agg)
		// fmtFlags: any width/precision/flag -> concretise
		flags := ag.f[1]
		plain := true
		if fl, ok := flags.P.(*Agg); ok {
			for i := range fl.f {
				if fl.f[i].N != 0 {
					plain = false
				}
			}
		}
		if !plain || a[2].N != 10 {
			a[1] = w.conc(a[1])
			return fallback
		}
		s, _ := fmtInt(w, a[1], Value{N: 10})
		buf := w.ptr(ag.f[0])
		w.store(buf, w.appendSlice(*buf, strBytes(s), types.Typ[types.Uint8]))
		return Value{}
	}
	// quoting inside error texts is not exact: the text of errors is not judged
	m["(*fmt.fmt).fmtQ"] = func(w *Worker, fr *frame, a []Value) Value {
		if w.sloppy == 0 {
			return fallback
		}
		if _, ok := a[1].P.(*SStr); !ok {
			return fallback
		}
		ag := w.ptr(a[0]).P.(*Agg)
		buf := w.ptr(ag.f[0])
		w.store(buf, w.appendSlice(*buf, strBytes(strConcat(strConcat(vstr(`"`), a[1]), vstr(`"`))), types.Typ[types.Uint8]))
		return Value{}
	}
	quote := func(w *Worker, fr *frame, a []Value) Value {
		if w.sloppy == 0 {
			return fallback
		}
		if _, ok := a[0].P.(*SStr); !ok {
			return fallback
		}
		return strConcat(strConcat(vstr(`"`), a[0]), vstr(`"`))
	}
	m["strconv.Quote"] = quote
	for _, n := range []string{"fmt.Errorf", "github.com/pkg/errors.Errorf", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.Wrap"} {
		n := n
		m[n] = func(w *Worker, fr *frame, a []Value) Value {
			cf := w.getFn(fr.cf.fn)
			w.sloppy++
			d := w.sloppy
			saved := cf.intr
			cf.intr = nil
			defer func() { cf.intr = saved; w.sloppy = d - 1 }()
			return w.call(cf, a, nil, nil)
		}
	}
	// time
	m["time.Now"] = func(w *Worker, fr *frame, a []Value) Value {
		return w.zero(fr.cf.results.At(0).Type())
	}
	m["time.now"] = func(w *Worker, fr *frame, a []Value) Value { return tup(Value{N: 1700000000}, Value{}, Value{}) }
	m["time.runtimeNano"] = func(w *Worker, fr *frame, a []Value) Value { return Value{N: 1} }
	m["time.Since"] = func(w *Worker, fr *frame, a []Value) Value { return Value{} }
	// math
	for n, f := range map[string]func(float64) float64{"archLog": math.Log, "archExp": math.Exp, "archFloor": math.Floor, "archCeil": math.Ceil, "archTrunc": math.Trunc,
		"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Log": math.Log, "Exp": math.Exp, "Sqrt": math.Sqrt, "sqrt": math.Sqrt} {
		m["math."+n] = func(w *Worker, fr *frame, a []Value) Value {
			return vfloat(f(math.Float64frombits(w.conc(a[0]).N)))
		}
	}
	for n, f := range map[string]func(x, y float64) float64{"archHypot": math.Hypot, "archMax": math.Max, "archMin": math.Min} {
		m["math."+n] = func(w *Worker, fr *frame, a []Value) Value {
			return vfloat(f(math.Float64frombits(w.conc(a[0]).N), math.Float64frombits(w.conc(a[1]).N)))
		}
	}
	m["(*sync.WaitGroup).Add"] = nop
	m["(*sync.WaitGroup).Done"] = nop
	m["(*sync.WaitGroup).Wait"] = nop
	m["(*sync.WaitGroup).Go"] = func(w *Worker, fr *frame, a []Value) Value {
		c, _ := a[1].P.(*Closure)
		w.inGo++
		defer func() { w.inGo-- }()
		w.callClosure(c, nil, nil)
		return Value{}
	}
	m["maps.clone"] = func(w *Worker, fr *frame, a []Value) Value {
		i, _ := a[0].P.(*Iface)
		if i == nil {
			return a[0]
		}
		o, _ := i.v.P.(*Map)
		if o == nil {
			return a[0]
		}
		n := newMap(o.kt)
		for _, e := range o.ents {
			if e.live {
				w.mapSet(n, e.k, e.v)
			}
		}
		return Value{P: &Iface{t: i.t, v: Value{P: n}}}
	}
	m["math.Float64bits"] = func(w *Worker, fr *frame, a []Value) Value { return a[0] }
	m["math.Float64frombits"] = func(w *Worker, fr *frame, a []Value) Value { return a[0] }
	m["math.Float32bits"] = func(w *Worker, fr *frame, a []Value) Value {
		return Value{N: uint64(math.Float32bits(float32(math.Float64frombits(a[0].N))))}
	}
	m["math.Float32frombits"] = func(w *Worker, fr *frame, a []Value) Value {
		return vfloat(float64(math.Float32frombits(uint32(a[0].N))))
	}
	m["hash/maphash.runtime_rand"] = func(w *Worker, fr *frame, a []Value) Value { return Value{N: 12345} }
	m["runtime.fastrand64"] = m["hash/maphash.runtime_rand"]
	// math/bits intrinsics are plain Go: interpreted.

	// regexp on concrete subjects is interpreted as is; MustCompile is concrete.
	registerReflect(m)
}

func (w *Worker) foldByte(b Value, lower bool) Value {
	if b.P == nil {
		c := byte(b.N)
		if lower && 'A' <= c && c <= 'Z' {
			c += 32
		} else if !lower && 'a' <= c && c <= 'z' {
			c -= 32
		}
		return Value{N: uint64(c)}
	}
	t := symOf(b)
	tc := w.tc
	lo, hi, d := uint64('A'), uint64('Z'), uint64(32)
	if !lower {
		lo, hi, d = 'a', 'z', 256-32
	}
	in := tc.And(tc.Bin(OUle, tc.Const(8, lo), t), tc.Bin(OUle, t, tc.Const(8, hi)))
	if k, ok := w.quick(in); ok {
		if k {
			return vterm(tc.Bin(OAdd, t, tc.Const(8, d)))
		}
		return b
	}
	return vterm(tc.Ite(in, tc.Bin(OAdd, t, tc.Const(8, d)), t))
}

// dynIntrinsic matches intrinsics by pattern (generic instances etc.).
func dynIntrinsic(fn *ssa.Function, name string) intrinsicFn {
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		pk = o.Pkg.Pkg.Path()
	}
	switch pk {
	case "sync/atomic":
		return atomicMethod(fn)
	}
	return nil
}

// atomicMethod models the methods of the atomic.T types on their value field.
func atomicMethod(fn *ssa.Function) intrinsicFn {
	recv := fn.Signature.Recv()
	if recv == nil {
		return nil
	}
	pt, ok := recv.Type().(*types.Pointer)
	if !ok {
		return nil
	}
	named, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok {
		return nil
	}
	st, ok := named.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	vi := -1
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "v" {
			vi = i
		}
	}
	if vi < 0 {
		return nil
	}
	isBool := named.Obj().Name() == "Bool"
	isVal := named.Obj().Name() == "Value"
	wd, _, _ := intInfo(st.Field(vi).Type())
	_ = isVal
	cell := func(w *Worker, a Value) *Value { return &w.ptr(a).P.(*Agg).f[vi] }
	switch fn.Name() {
	case "Load":
		return func(w *Worker, fr *frame, a []Value) Value { return *cell(w, a[0]) }
	case "Store":
		return func(w *Worker, fr *frame, a []Value) Value { w.store(cell(w, a[0]), a[1]); return Value{} }
	case "Swap":
		return func(w *Worker, fr *frame, a []Value) Value {
			c := cell(w, a[0])
			o := *c
			w.store(c, a[1])
			return o
		}
	case "CompareAndSwap":
		return func(w *Worker, fr *frame, a []Value) Value {
			c := cell(w, a[0])
			if (c.P == a[1].P && c.N == a[1].N) || (isVal && c.P == nil && a[1].P == nil) {
				w.store(c, a[2])
				return Value{N: 1}
			}
			return Value{}
		}
	case "Add":
		if isBool {
			return nil
		}
		return func(w *Worker, fr *frame, a []Value) Value {
			c := cell(w, a[0])
			v := Value{N: (c.N + a[1].N) & maskW(wd)}
			w.store(c, v)
			return v
		}
	}
	return nil
}

var _ = fmt.Sprint
