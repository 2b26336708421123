package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type intrinsicFn func(w *Worker, fr *frame, args []Value) Value

type opnd struct {
	r int32
	v Value
}

type cphi struct {
	dst   int32
	edges []opnd
	w     uint8
	isInt bool // integer or bool: may be merged with ite
}

const (
	tJump = iota
	tIf
	tReturn
	tPanic
	tNone
)

type cblk struct {
	idx    int
	phis   []cphi
	code   []func(fr *frame)
	term   int
	cond   opnd
	succ   [2]*cblk
	predIx [2]int // index of this block among succ[i]'s predecessors
	ret    []opnd
	pure   bool // all code is side-effect free and cannot trap
	isRun  bool
}

type cfn struct {
	fn       *ssa.Function
	nregs    int
	nparams  int
	blocks   []*cblk
	recover  *cblk
	hasDefer bool
	sloppy   bool
	intr     intrinsicFn
	intrName string
	results  *types.Tuple
	compiled bool
	pkgInit  bool
}

type deferred struct {
	call func()
	f    func(fr *frame, of *frame) // runs the call with deferOf=of
}

type frame struct {
	w       *Worker
	cf      *cfn
	regs    []Value
	defers  []func(of *frame)
	pan     *goPanic
	deferOf *frame
	caller  *frame
	result  Value
}

type undoRec struct {
	p   *Value
	old Value
	fn  func()
}

func (o *opnd) get(fr *frame) Value {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	return o.v
}

type methodKey struct {
	t types.Type
	n string
}

type typePair struct{ a, b types.Type }

// ---- types

func (w *Worker) canon(t types.Type) types.Type {
	if c, ok := w.canonP[t]; ok {
		return c
	}
	u := types.Unalias(t)
	if c := w.canonT.At(u); c != nil {
		ct := c.(types.Type)
		w.canonP[t] = ct
		return ct
	}
	w.canonT.Set(u, u)
	w.canonP[t] = u
	w.canonP[u] = u
	return u
}

func (w *Worker) implements(t types.Type, i *types.Interface) bool {
	k := typePair{t, i}
	if r, ok := w.implC[k]; ok {
		return r
	}
	r := types.Implements(t, i)
	w.implC[k] = r
	return r
}

func (w *Worker) method(t types.Type, m *types.Func) *ssa.Function {
	n := m.Name()
	if !m.Exported() && m.Pkg() != nil {
		n = m.Pkg().Path() + "." + n
	}
	k := methodKey{t, n}
	if f, ok := w.methC[k]; ok {
		return f
	}
	f := w.prog.LookupMethod(t, m.Pkg(), m.Name())
	w.methC[k] = f
	return f
}

func newTypeMap() *typeutil.Map { return new(typeutil.Map) }

// ---- globals and package initialisation

func (w *Worker) global(g *ssa.Global) *Value {
	if p, ok := w.globals[g]; ok {
		w.ensureInit(g.Pkg)
		return p
	}
	p := new(Value)
	*p = w.zero(g.Type().(*types.Pointer).Elem())
	w.globals[g] = p
	w.ensureInit(g.Pkg)
	return p
}

var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "internal/poll": true, "internal/godebug": true, "net": true,
	"os/signal": true, "internal/cpu": true, "time": false, "reflect": true, "internal/runtime/maps": true, "testing": true,
	"internal/bytealg": true, "internal/syscall/unix": true, "crypto/internal/fips140": true, "internal/testlog": true,
}

func (w *Worker) ensureInit(p *ssa.Package) {
	if p == nil || w.inited[p] {
		return
	}
	w.inited[p] = true
	if skipInit[p.Pkg.Path()] || strings.HasPrefix(p.Pkg.Path(), "internal/runtime/") {
		return
	}
	init := p.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return
	}
	w.logOff++
	saveSteps, saveSp, saveDepth, saveFr := w.steps, w.sp, w.depth, w.cur
	saveMode := w.inInit
	w.inInit = true
	defer func() {
		trace := ""
		if dbg {
			trace = w.stackTrace()
		}
		w.logOff--
		w.steps, w.sp, w.depth, w.cur = saveSteps, saveSp, saveDepth, saveFr
		w.inInit = saveMode
		if r := recover(); r != nil {
			msg := ""
			switch x := r.(type) {
			case unsupportedErr:
				msg = x.msg
			case *goPanic:
				msg = "panic " + w.panicText(x)
			case pathEnd:
				msg = x.why
			default:
				msg = fmt.Sprint(r)
			}
			if dbg {
				fmt.Println("init of", p.Pkg.Path(), "fails:", msg)
				fmt.Println(trace)
			}
			w.sh.noteInit(p.Pkg.Path(), msg)
		}
	}()
	w.steps = -1 << 60
	w.cur = nil
	w.callSSA(init, nil, nil, nil)
}

// ---- calls

func (w *Worker) getFn(fn *ssa.Function) *cfn {
	if c, ok := w.fns[fn]; ok {
		return c
	}
	c := &cfn{fn: fn}
	w.fns[fn] = c
	name := fnName(fn)
	if in, ok := intrinsics[name]; ok {
		c.intr = in
		c.intrName = name
		w.sh.noteIntr(name)
	} else if in := dynIntrinsic(fn, name); in != nil {
		c.intr = in
		c.intrName = name
		w.sh.noteIntr(name)
	}
	c.results = fn.Signature.Results()
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil && fn.Synthetic != "" {
		c.pkgInit = true
	}
	if fn.Name() == "Error" && fn.Signature.Recv() != nil && fn.Signature.Params().Len() == 0 && fn.Synthetic == "" {
		c.sloppy = true
	}
	return c
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

// callSSA calls fn with args (params) and env (free variables).
func (w *Worker) callSSA(fn *ssa.Function, args, env []Value, deferOf *frame) Value {
	return w.call(w.getFn(fn), args, env, deferOf)
}

func (w *Worker) call(c *cfn, args, env []Value, deferOf *frame) Value {
	if c.intr != nil {
		fr := &frame{w: w, cf: c, caller: w.cur, deferOf: deferOf}
		r, ok := w.tryIntr(c, fr, args)
		if ok {
			return r
		}
	}
	if c.pkgInit && w.inInit && w.cur != nil && w.cur.cf.fn.Pkg != c.fn.Pkg {
		return Value{} // package initialisation is lazy
	}
	if !c.compiled {
		w.compile(c)
	}
	sp := w.sp
	var regs []Value
	if sp+c.nregs <= len(w.stack) {
		regs = w.stack[sp : sp+c.nregs : sp+c.nregs]
		w.sp = sp + c.nregs
	} else {
		regs = make([]Value, c.nregs)
	}
	copy(regs, args)
	copy(regs[c.nparams:], env)
	fr := &frame{w: w, cf: c, regs: regs, caller: w.cur, deferOf: deferOf}
	w.depth++
	if w.depth > w.maxDepth {
		panic(pathEnd{"depth"})
	}
	prev := w.cur
	w.cur = fr
	if c.sloppy {
		w.sloppy++
	}
	var res Value
	if c.hasDefer {
		res = w.runWithDefers(fr, sp)
	} else {
		res = w.exec(fr, c.blocks[0])
	}
	if c.sloppy {
		w.sloppy--
	}
	w.cur = prev
	w.depth--
	w.sp = sp
	return res
}

type intrFallback struct{}

func (w *Worker) tryIntr(c *cfn, fr *frame, args []Value) (r Value, ok bool) {
	r = c.intr(w, fr, args)
	if _, fb := r.P.(intrFallback); fb {
		return Value{}, false
	}
	return r, true
}

var fallback = Value{P: intrFallback{}}

func (w *Worker) runWithDefers(fr *frame, sp int) (res Value) {
	depth, sloppy := w.depth, w.sloppy
	protect := func(f func()) {
		defer func() {
			if r := recover(); r != nil {
				gp, ok := r.(*goPanic)
				if !ok {
					panic(r)
				}
				fr.pan = gp
				w.sp = sp + fr.cf.nregs
				w.depth = depth
				w.sloppy = sloppy
				w.cur = fr
			}
		}()
		f()
	}
	protect(func() { res = w.exec(fr, fr.cf.blocks[0]) })
	if fr.pan == nil {
		return res
	}
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		protect(func() { d(fr) })
	}
	if fr.pan != nil {
		panic(fr.pan)
	}
	if fr.cf.recover != nil {
		return w.exec(fr, fr.cf.recover)
	}
	if fr.cf.results.Len() == 1 {
		return w.zero(fr.cf.results.At(0).Type())
	}
	return w.zero(fr.cf.results)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d(fr)
	}
}

func (w *Worker) exec(fr *frame, b *cblk) Value {
	pred := -1
	var tmp [16]Value
	for {
		if len(b.phis) > 0 {
			if len(b.phis) == 1 {
				p := &b.phis[0]
				fr.regs[p.dst] = p.edges[pred].get(fr)
			} else {
				t := tmp[:0]
				for i := range b.phis {
					t = append(t, b.phis[i].edges[pred].get(fr))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = t[i]
				}
			}
		}
	skipPhi:
		w.steps += len(b.code) + 1
		if w.steps > w.maxSteps {
			panic(pathEnd{"steps"})
		}
		for _, c := range b.code {
			c(fr)
		}
		switch b.term {
		case tJump:
			pred = b.predIx[0]
			b = b.succ[0]
		case tIf:
			c := b.cond.get(fr)
			if c.P == nil {
				if c.N != 0 {
					pred = b.predIx[0]
					b = b.succ[0]
				} else {
					pred = b.predIx[1]
					b = b.succ[1]
				}
				continue
			}
			nb, np, joined := w.symIf(fr, b, c.P.(*Term))
			b, pred = nb, np
			if joined {
				goto skipPhi
			}
		case tReturn:
			switch len(b.ret) {
			case 0:
				return Value{}
			case 1:
				return b.ret[0].get(fr)
			}
			t := make(Tuple, len(b.ret))
			for i := range b.ret {
				t[i] = b.ret[i].get(fr)
			}
			return Value{P: t}
		case tPanic:
			v := b.cond.get(fr)
			panic(&goPanic{v: v, where: w.where(fr)})
		default:
			panic(unsupported("block without terminator"))
		}
	}
}

// symIf handles a branch on a symbolic condition. It first merges chains of
// side-effect free tests with a common target into one condition, and
// side-effect free diamonds into ite terms; what remains is a fork.
func (w *Worker) symIf(fr *frame, b *cblk, c *Term) (nb *cblk, pred int, joined bool) {
	T, F := b.succ[0], b.succ[1]
	pT, pF := b.predIx[0], b.predIx[1]
	tc := w.tc
	if d, ok := w.quick(c); ok {
		if d {
			return T, pT, false
		}
		return F, pF, false
	}
	for n := 0; n < 64; n++ {
		if T == F {
			break
		}
		if F.pure && F.term == tIf && len(F.phis) == 0 && F != b {
			if F.succ[0] == T && F.succ[1] != F && samePhi(T, pT, F.predIx[0]) {
				c2 := w.evalPure(fr, F)
				c = tc.Or(c, c2)
				pF = F.predIx[1]
				F = F.succ[1]
				continue
			}
			if F.succ[1] == T && F.succ[0] != F && samePhi(T, pT, F.predIx[1]) {
				c2 := w.evalPure(fr, F)
				c = tc.Or(c, tc.Not(c2))
				pF = F.predIx[0]
				F = F.succ[0]
				continue
			}
		}
		if T.pure && T.term == tIf && len(T.phis) == 0 && T != b {
			if T.succ[1] == F && T.succ[0] != T && samePhi(F, pF, T.predIx[1]) {
				c2 := w.evalPure(fr, T)
				c = tc.And(c, c2)
				pT = T.predIx[0]
				T = T.succ[0]
				continue
			}
			if T.succ[0] == F && T.succ[1] != T && samePhi(F, pF, T.predIx[0]) {
				c2 := w.evalPure(fr, T)
				c = tc.And(c, tc.Not(c2))
				pT = T.predIx[1]
				T = T.succ[1]
				continue
			}
		}
		break
	}
	if c.isC() {
		if c.V != 0 {
			return T, pT, false
		}
		return F, pF, false
	}
	// diamonds / triangles
	jT, jpT := T, pT
	if T.pure && T.term == tJump && len(T.phis) == 0 {
		jT, jpT = T.succ[0], T.predIx[0]
	}
	jF, jpF := F, pF
	if F.pure && F.term == tJump && len(F.phis) == 0 {
		jF, jpF = F.succ[0], F.predIx[0]
	}
	type cand struct {
		j      *cblk
		pt, pf int
		rT, rF bool
	}
	for _, k := range []cand{{jT, jpT, jpF, jT != T, jF != F}, {T, pT, jpF, false, jF != F}, {jT, jpT, pF, jT != T, false}} {
		tt, ff := T, F
		if k.rT {
			tt = jT
		}
		if k.rF {
			ff = jF
		}
		if tt != k.j || ff != k.j || (tt == T && ff == F && T != F) {
			continue
		}
		ok := len(k.j.phis) > 0
		for i := range k.j.phis {
			p := &k.j.phis[i]
			if !p.isInt && !sameOpnd(&p.edges[k.pt], &p.edges[k.pf]) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		if k.rT {
			w.evalPureCode(fr, T)
		}
		if k.rF {
			w.evalPureCode(fr, F)
		}
		vals := make([]Value, len(k.j.phis))
		for i := range k.j.phis {
			p := &k.j.phis[i]
			a, bb := p.edges[k.pt].get(fr), p.edges[k.pf].get(fr)
			if sameOpnd(&p.edges[k.pt], &p.edges[k.pf]) {
				vals[i] = a
			} else {
				vals[i] = vterm(tc.Ite(c, w.term(a, p.w), w.term(bb, p.w)))
			}
		}
		for i := range vals {
			fr.regs[k.j.phis[i].dst] = vals[i]
		}
		return k.j, k.pt, true
	}
	if w.branch(c) {
		return T, pT, false
	}
	return F, pF, false
}

func sameOpnd(a, b *opnd) bool {
	if a.r >= 0 || b.r >= 0 {
		return a.r == b.r
	}
	if a.v.N != b.v.N {
		return false
	}
	if a.v.P == nil || b.v.P == nil {
		return a.v.P == nil && b.v.P == nil
	}
	x, ok1 := a.v.P.(string)
	y, ok2 := b.v.P.(string)
	return ok1 && ok2 && x == y
}

func samePhi(b *cblk, p, q int) bool {
	for i := range b.phis {
		if !sameOpnd(&b.phis[i].edges[p], &b.phis[i].edges[q]) {
			return false
		}
	}
	return true
}

func (w *Worker) evalPureCode(fr *frame, b *cblk) {
	w.steps += len(b.code) + 1
	for _, c := range b.code {
		c(fr)
	}
}

func (w *Worker) evalPure(fr *frame, b *cblk) *Term {
	w.evalPureCode(fr, b)
	return w.term(b.cond.get(fr), 0)
}

// term lifts a value to a term of width wd.
func (w *Worker) term(v Value, wd uint8) *Term {
	if t, ok := v.P.(*Term); ok {
		return t
	}
	return w.tc.Const(wd, v.N)
}

func (w *Worker) where(fr *frame) string {
	for f := fr; f != nil; f = f.caller {
		if f.cf != nil && f.cf.fn != nil {
			return f.cf.fn.String()
		}
	}
	return "?"
}

func (w *Worker) stackTrace() string {
	var sb strings.Builder
	n := 0
	for f := w.cur; f != nil && n < 40; f = f.caller {
		if f.cf != nil {
			sb.WriteString("  " + f.cf.fn.String() + "\n")
		}
		n++
	}
	return sb.String()
}

// ---- memory

func (w *Worker) store(p *Value, v Value) {
	if a, ok := p.P.(*Agg); ok {
		if b, ok := v.P.(*Agg); ok {
			if a == b {
				return
			}
			for i := range a.f {
				w.store(&a.f[i], b.f[i])
			}
			return
		}
	}
	if w.logOff == 0 {
		w.undo = append(w.undo, undoRec{p: p, old: *p})
	}
	*p = v
}

func (w *Worker) addUndo(f func()) {
	if w.logOff == 0 {
		w.undo = append(w.undo, undoRec{fn: f})
	}
}

func (w *Worker) rollback() {
	for i := len(w.undo) - 1; i >= 0; i-- {
		u := &w.undo[i]
		if u.fn != nil {
			u.fn()
		} else {
			*u.p = u.old
		}
		*u = undoRec{}
	}
	w.undo = w.undo[:0]
}

func (w *Worker) load(v Value) Value {
	p, ok := v.P.(*Value)
	if !ok {
		if v.P == nil {
			w.nilDeref()
		}
		if sd, ok := v.P.(*sdPtr); ok && len(sd.s) > 0 {
			return sd.s[0]
		}
		panic(unsupported(fmt.Sprintf("load through %T", v.P)))
	}
	if a, ok := p.P.(*Agg); ok {
		return Value{P: copyAgg(a)}
	}
	return *p
}

func (w *Worker) ptr(v Value) *Value {
	p, ok := v.P.(*Value)
	if !ok {
		if v.P == nil {
			w.nilDeref()
		}
		panic(unsupported(fmt.Sprintf("pointer %T", v.P)))
	}
	return p
}

// ---- Go panics

func (w *Worker) rtPanic(msg string) {
	panic(&goPanic{v: w.runtimeError(msg), runtime: msg, where: w.where(w.cur)})
}

func (w *Worker) nilDeref() {
	w.rtPanic("invalid memory address or nil pointer dereference")
}

func (w *Worker) panicText(p *goPanic) string {
	if p.runtime != "" {
		return "runtime error: " + p.runtime + " at " + p.where
	}
	if i, ok := p.v.P.(*Iface); ok {
		if s, ok := concStr(i.v); ok && isString(i.t) {
			return s + " at " + p.where
		}
		return i.t.String() + " at " + p.where
	}
	return "nil at " + p.where
}

func (w *Worker) runtimeError(msg string) Value {
	t := w.sh.runtimeErrT
	if t == nil {
		return Value{P: &Iface{t: w.canon(types.Typ[types.String]), v: vstr("runtime error: " + msg)}}
	}
	return Value{P: &Iface{t: w.canon(t), v: vstr(msg)}}
}

// ---- constants

func (w *Worker) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return w.zero(t)
	}
	if wd, _, ok := intInfo(t); ok {
		if wd == 0 {
			return vbool(constant.BoolVal(c.Value))
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{N: uint64(i) & maskW(wd)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{N: u & maskW(wd)}
	}
	if bitsN, ok := isFloat(t); ok {
		f, _ := constant.Float64Val(c.Value)
		if bitsN == 32 {
			f = float64(float32(f))
		}
		return vfloat(f)
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return vstr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return vstr(string(rune(i)))
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return Value{P: complex(re, im)}
	}
	panic(unsupported("const of type " + t.String()))
}

// ---- binary operations

func (w *Worker) binop(op token.Token, t types.Type, yt types.Type, a, b Value) Value {
	if wd, signed, ok := intInfo(t); ok {
		if wd == 0 {
			return w.boolOp(op, a, b)
		}
		return w.intOp(op, wd, signed, a, b, yt)
	}
	if isString(t) {
		return w.strOp(op, a, b)
	}
	if _, ok := isFloat(t); ok {
		return w.floatOp(op, t, a, b)
	}
	switch op {
	case token.EQL:
		return w.eqVal(t, a, b)
	case token.NEQ:
		return w.notV(w.eqVal(t, a, b))
	}
	panic(unsupported("binop " + op.String() + " on " + t.String()))
}

func (w *Worker) notV(v Value) Value {
	if t, ok := v.P.(*Term); ok {
		return vterm(w.tc.Not(t))
	}
	return Value{N: 1 - v.N}
}

func (w *Worker) boolOp(op token.Token, a, b Value) Value {
	switch op {
	case token.EQL:
		return vterm(w.tc.Eq(w.term(a, 0), w.term(b, 0)))
	case token.NEQ:
		return w.notV(vterm(w.tc.Eq(w.term(a, 0), w.term(b, 0))))
	case token.AND, token.LAND:
		return vterm(w.tc.And(w.term(a, 0), w.term(b, 0)))
	case token.OR, token.LOR:
		return vterm(w.tc.Or(w.term(a, 0), w.term(b, 0)))
	}
	panic(unsupported("bool op " + op.String()))
}

func (w *Worker) floatOp(op token.Token, t types.Type, a, b Value) Value {
	a, b = w.conc(a), w.conc(b)
	x, y := math.Float64frombits(a.N), math.Float64frombits(b.N)
	var r float64
	switch op {
	case token.ADD:
		r = x + y
	case token.SUB:
		r = x - y
	case token.MUL:
		r = x * y
	case token.QUO:
		r = x / y
	case token.EQL:
		return vbool(x == y)
	case token.NEQ:
		return vbool(x != y)
	case token.LSS:
		return vbool(x < y)
	case token.LEQ:
		return vbool(x <= y)
	case token.GTR:
		return vbool(x > y)
	case token.GEQ:
		return vbool(x >= y)
	default:
		panic(unsupported("float op"))
	}
	if n, _ := isFloat(t); n == 32 {
		r = float64(float32(r))
	}
	return vfloat(r)
}

func (w *Worker) intOp(op token.Token, wd uint8, signed bool, a, b Value, yt types.Type) Value {
	switch op {
	case token.SHL, token.SHR:
		return w.shiftOp(op, wd, signed, a, b, yt)
	}
	if a.P == nil && b.P == nil {
		x, y := a.N, b.N
		m := maskW(wd)
		switch op {
		case token.ADD:
			return Value{N: (x + y) & m}
		case token.SUB:
			return Value{N: (x - y) & m}
		case token.MUL:
			return Value{N: (x * y) & m}
		case token.QUO, token.REM:
			if y == 0 {
				w.rtPanic("integer divide by zero")
			}
			o := OUDiv
			switch {
			case op == token.QUO && signed:
				o = OSDiv
			case op == token.REM && signed:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			r, _ := evalBin(o, wd, x, y)
			return Value{N: r}
		case token.AND:
			return Value{N: x & y}
		case token.OR:
			return Value{N: x | y}
		case token.XOR:
			return Value{N: x ^ y}
		case token.AND_NOT:
			return Value{N: x &^ y}
		case token.EQL:
			return vbool(x == y)
		case token.NEQ:
			return vbool(x != y)
		}
		var lt, eq bool
		eq = x == y
		if signed {
			lt = sext64(x, wd) < sext64(y, wd)
		} else {
			lt = x < y
		}
		switch op {
		case token.LSS:
			return vbool(lt)
		case token.LEQ:
			return vbool(lt || eq)
		case token.GTR:
			return vbool(!lt && !eq)
		case token.GEQ:
			return vbool(!lt)
		}
		panic(unsupported("int op " + op.String()))
	}
	tc := w.tc
	if a.P != nil {
		if _, ok := a.P.(*Term); !ok { // uintptr carrying a pointer
			return w.ptrOp(op, a, b)
		}
	}
	if b.P != nil {
		if _, ok := b.P.(*Term); !ok {
			return w.ptrOp(op, a, b)
		}
	}
	x, y := w.term(a, wd), w.term(b, wd)
	lt, le := OUlt, OUle
	if signed {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.ADD:
		return vterm(tc.Bin(OAdd, x, y))
	case token.SUB:
		return vterm(tc.Bin(OSub, x, y))
	case token.MUL:
		return vterm(tc.Bin(OMul, x, y))
	case token.QUO, token.REM:
		if w.branch(tc.Eq(y, tc.Const(wd, 0))) {
			w.rtPanic("integer divide by zero")
		}
		o := OUDiv
		switch {
		case op == token.QUO && signed:
			o = OSDiv
		case op == token.REM && signed:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return vterm(tc.Bin(o, x, y))
	case token.AND:
		return vterm(tc.Bin(OBAnd, x, y))
	case token.OR:
		return vterm(tc.Bin(OBOr, x, y))
	case token.XOR:
		return vterm(tc.Bin(OBXor, x, y))
	case token.AND_NOT:
		return vterm(tc.Bin(OBAnd, x, tc.Bin(OBXor, y, tc.Const(wd, maskW(wd)))))
	case token.EQL:
		return vterm(tc.Eq(x, y))
	case token.NEQ:
		return vterm(tc.Not(tc.Eq(x, y)))
	case token.LSS:
		return vterm(tc.Bin(lt, x, y))
	case token.LEQ:
		return vterm(tc.Bin(le, x, y))
	case token.GTR:
		return vterm(tc.Bin(lt, y, x))
	case token.GEQ:
		return vterm(tc.Bin(le, y, x))
	}
	panic(unsupported("int op " + op.String()))
}

// ptrOp: integer operations on a uintptr that carries a pointer.
func (w *Worker) ptrOp(op token.Token, a, b Value) Value {
	switch op {
	case token.EQL:
		return vbool(a.P == b.P && a.N == b.N)
	case token.NEQ:
		return vbool(!(a.P == b.P && a.N == b.N))
	case token.XOR, token.ADD, token.OR:
		if b.P == nil && b.N == 0 {
			return a
		}
	}
	panic(unsupported("pointer arithmetic"))
}

func (w *Worker) shiftOp(op token.Token, wd uint8, signed bool, a, b Value, yt types.Type) Value {
	bw, bs, _ := intInfo(yt)
	if bw == 0 {
		bw = 64
	}
	if a.P == nil && b.P == nil {
		if bs && sext64(b.N, bw) < 0 {
			w.rtPanic("negative shift amount")
		}
		if op == token.SHL {
			if b.N >= uint64(wd) {
				return Value{}
			}
			return Value{N: (a.N << b.N) & maskW(wd)}
		}
		o := OLshr
		if signed {
			o = OAshr
		}
		r, _ := evalBin(o, wd, a.N, b.N)
		return Value{N: r}
	}
	tc := w.tc
	x, y := w.term(a, wd), w.term(b, bw)
	if bs && !y.isC() {
		if w.branch(tc.Bin(OSlt, y, tc.Const(bw, 0))) {
			w.rtPanic("negative shift amount")
		}
	}
	cw := wd
	if bw > cw {
		cw = bw
	}
	xx := tc.Zext(cw, x)
	if signed {
		xx = tc.Sext(cw, x)
	}
	yy := tc.Zext(cw, y)
	o := OShl
	if op == token.SHR {
		o = OLshr
		if signed {
			o = OAshr
		}
	}
	return vterm(tc.Extract(wd, tc.Bin(o, xx, yy)))
}

func (w *Worker) strEq(a, b Value) Value {
	if strLen(a) != strLen(b) {
		return Value{}
	}
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			return vbool(x == y)
		}
	}
	x, y := strBytes(a), strBytes(b)
	r := w.tc.t
	for i := range x {
		if x[i].P == nil && y[i].P == nil {
			if x[i].N != y[i].N {
				return Value{}
			}
			continue
		}
		r = w.tc.And(r, w.tc.Eq(w.term(x[i], 8), w.term(y[i], 8)))
		if r == w.tc.f {
			return Value{}
		}
	}
	return vterm(r)
}

func (w *Worker) strLess(a, b Value) Value {
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			return vbool(x < y)
		}
	}
	x, y := strBytes(a), strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := w.tc.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := w.term(x[i], 8), w.term(y[i], 8)
		r = w.tc.Or(w.tc.Bin(OUlt, p, q), w.tc.And(w.tc.Eq(p, q), r))
	}
	return vterm(r)
}

func (w *Worker) strOp(op token.Token, a, b Value) Value {
	switch op {
	case token.ADD:
		return strConcat(a, b)
	case token.EQL:
		return w.strEq(a, b)
	case token.NEQ:
		return w.notV(w.strEq(a, b))
	case token.LSS:
		return w.strLess(a, b)
	case token.GTR:
		return w.strLess(b, a)
	case token.LEQ:
		return w.notV(w.strLess(b, a))
	case token.GEQ:
		return w.notV(w.strLess(a, b))
	}
	panic(unsupported("string op"))
}

// eqVal is == on two values of type t.
func (w *Worker) eqVal(t types.Type, a, b Value) Value {
	if wd, _, ok := intInfo(t); ok {
		if a.P == nil && b.P == nil {
			return vbool(a.N == b.N)
		}
		if (a.P != nil && symOf(a) == nil) || (b.P != nil && symOf(b) == nil) {
			return w.ptrOp(token.EQL, a, b)
		}
		return vterm(w.tc.Eq(w.term(a, wd), w.term(b, wd)))
	}
	if isString(t) {
		return w.strEq(a, b)
	}
	if _, ok := isFloat(t); ok {
		return w.floatOp(token.EQL, t, a, b)
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		x, _ := a.P.(*Iface)
		y, _ := b.P.(*Iface)
		if x == nil || y == nil {
			return vbool(x == nil && y == nil)
		}
		if rx, ok := x.v.P.(*RType); ok {
			ry, ok := y.v.P.(*RType)
			return vbool(ok && rx.t == ry.t)
		}
		if x.t != y.t {
			return Value{}
		}
		if !types.Comparable(x.t) {
			w.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return w.eqVal(x.t, x.v, y.v)
	case *types.Struct:
		x, _ := a.P.(*Agg)
		y, _ := b.P.(*Agg)
		if x == nil || y == nil {
			panic(unsupported("struct comparison of " + t.String()))
		}
		r := w.tc.t
		for i := 0; i < u.NumFields(); i++ {
			r = w.tc.And(r, w.term(w.eqVal(u.Field(i).Type(), x.f[i], y.f[i]), 0))
		}
		return vterm(r)
	case *types.Array:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := w.tc.t
		for i := range x.f {
			r = w.tc.And(r, w.term(w.eqVal(u.Elem(), x.f[i], y.f[i]), 0))
		}
		return vterm(r)
	case *types.Slice, *types.Map, *types.Signature:
		return vbool(isNilV(a) && isNilV(b))
	}
	return vbool(ptrEq(a, b))
}

func isNilV(v Value) bool {
	if v.P == nil {
		return true
	}
	switch x := v.P.(type) {
	case *Map:
		return x == nil
	case *Closure:
		return x == nil
	}
	return false
}

func ptrEq(a, b Value) bool {
	if a.P == nil || b.P == nil {
		return a.P == nil && b.P == nil
	}
	if x, ok := a.P.(*sdPtr); ok {
		y, ok := b.P.(*sdPtr)
		return ok && len(x.s) > 0 && len(y.s) > 0 && &x.s[0] == &y.s[0]
	}
	return a.P == b.P
}

// ---- maps

type structKey struct{ s string }

// mapKey returns a comparable host key for a concrete key value.
func (w *Worker) mapKey(t types.Type, v Value) (any, bool) {
	if symOf(v) != nil {
		return nil, false
	}
	if isString(t) {
		s, ok := concStr(v)
		if !ok {
			return nil, false
		}
		return s, true
	}
	if _, _, ok := intInfo(t); ok {
		if v.P != nil {
			return v.P, true
		}
		return v.N, true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		i, _ := v.P.(*Iface)
		if i == nil {
			return nil, true
		}
		if rt, ok := i.v.P.(*RType); ok {
			return rt.t, true
		}
		if !types.Comparable(i.t) {
			w.rtPanic("hash of unhashable type " + i.t.String())
		}
		k, ok := w.mapKey(i.t, i.v)
		if !ok {
			return nil, false
		}
		type ik struct {
			t types.Type
			k any
		}
		return ik{i.t, k}, true
	case *types.Struct:
		a, ok := v.P.(*Agg)
		if !ok {
			return v.P, true
		}
		var sb strings.Builder
		for i := 0; i < u.NumFields(); i++ {
			k, ok := w.mapKey(u.Field(i).Type(), a.f[i])
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return structKey{sb.String()}, true
	case *types.Array:
		a := v.P.(*Agg)
		var sb strings.Builder
		for i := range a.f {
			k, ok := w.mapKey(u.Elem(), a.f[i])
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return structKey{sb.String()}, true
	}
	if _, ok := isFloat(t); ok {
		return v.N, true
	}
	return v.P, true
}

func newMap(kt types.Type) *Map { return &Map{kt: kt, idx: map[any]int{}} }

// mapFind returns the entry index of key k or -1.
func (w *Worker) mapFind(m *Map, k Value) int {
	if m == nil || m.n == 0 {
		if m != nil {
			w.mapKey(m.kt, k) // unhashable keys panic even in empty maps
		}
		return -1
	}
	k = w.pin(k)
	hk, conc := w.mapKey(m.kt, k)
	if conc {
		if i, ok := m.idx[hk]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.ents {
		e := &m.ents[i]
		if !e.live {
			continue
		}
		if conc {
			if _, ec := w.mapKey(m.kt, e.k); ec {
				continue
			}
		}
		if w.truth(w.eqVal(m.kt, e.k, k)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapSet(m *Map, k, v Value) {
	k = w.pin(k)
	i := w.mapFind(m, k)
	if i >= 0 {
		old := m.ents[i].v
		m.ents[i].v = v
		w.addUndo(func() { m.ents[i].v = old })
		return
	}
	hk, conc := w.mapKey(m.kt, k)
	i = len(m.ents)
	m.ents = append(m.ents, mapEnt{k, v, true})
	m.n++
	if conc {
		m.idx[hk] = i
	} else {
		m.nsym++
	}
	w.addUndo(func() {
		m.ents = m.ents[:i]
		m.n--
		if conc {
			delete(m.idx, hk)
		} else {
			m.nsym--
		}
	})
}

func (w *Worker) mapDelete(m *Map, k Value) {
	i := w.mapFind(m, k)
	if i < 0 {
		return
	}
	hk, conc := w.mapKey(m.kt, m.ents[i].k)
	m.ents[i].live = false
	m.n--
	if conc {
		delete(m.idx, hk)
	} else {
		m.nsym--
	}
	w.addUndo(func() {
		m.ents[i].live = true
		m.n++
		if conc {
			m.idx[hk] = i
		} else {
			m.nsym++
		}
	})
}

var dbg = os.Getenv("GOSX_DEBUG") != ""
