package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type decision struct {
	v      int32 // branch: 0/1; choice: index; concretise: 1 = equal to k, 0 = different
	forced bool
	k      uint64
}

type workItem struct {
	decs  []decision
	model []uint64
}

type inputEv struct {
	kind byte // 'b' byte, 'i' int, 'o' bool, 'c' choice
	t    *Term
	val  uint64
}

type pathRec struct {
	Vec    []uint64 `json:"v"`
	Status string   `json:"s"`
	Msg    string   `json:"m,omitempty"`
	Obs    []string `json:"o,omitempty"`
	Known  []string `json:"k,omitempty"`
	exact  bool     // observations are exact (no opaque text)
}

// Worker owns one interpreter heap and one solver process.
type Worker struct {
	sh      *Shared
	prog    *ssa.Program
	tc      *TermCtx
	solver  *Solver
	sizes   types.Sizes
	fns     map[*ssa.Function]*cfn
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	canonP  map[types.Type]types.Type
	canonT  *typeutil.Map
	implC   map[typePair]bool
	methC   map[methodKey]*ssa.Function
	rtypes  map[types.Type]*Iface
	side    map[any]any // engine-side state of modelled library objects (persistent, e.g. sync.Map)

	stack  []Value
	sp     int
	cur    *frame
	depth  int
	sloppy int
	inInit bool
	logOff int
	undo   []undoRec

	// per path
	decs     []decision
	nd       int
	prefix   []decision
	pc       []*Term
	known    map[*Term]bool
	ranges   map[uint64]rng
	rngMemo  map[*Term]rngEnt
	rngVer   int
	inGo     int
	fixed    map[uint64]uint64
	model    []uint64
	nvars    int
	inputs   []inputEv
	obs      []Value
	obsLabel []string
	knownHit []string
	steps    int
	maxSteps int
	maxDepth int
	rangeM   map[*Term][2]uint64
}

type Shared struct {
	mu          sync.Mutex
	cond        *sync.Cond
	queue       []workItem
	busy        int
	stop        bool
	deadline    time.Time
	prog        *ssa.Program
	entry       *ssa.Function
	solver      *SolverShared
	params      map[string]int
	runtimeErrT types.Type
	rtypePtrT   types.Type
	pkgs        map[string]*ssa.Package
	permPkgs    []string

	fnSeen   map[*ssa.Function]bool
	intrSeen map[string]bool
	initNote map[string]string

	// results
	paths      int
	okPaths    int
	assumed    int
	branches   int64
	forced     int64
	asserts    int64
	assertsSym int64
	unsup      map[string]int
	limits     map[string]int
	reach      map[string]int
	viols      []pathRec
	recs       []pathRec
	unkBranch  int64
	unkAssert  int64
	maxViol    int
	pending    int
	timedOut   bool
	stepsTotal int64
	maxPathLen int
	emit       func(pathRec)
}

func (sh *Shared) noteFn(fn *ssa.Function) {
	sh.mu.Lock()
	sh.fnSeen[fn] = true
	sh.mu.Unlock()
}
func (sh *Shared) noteIntr(n string) {
	sh.mu.Lock()
	sh.intrSeen[n] = true
	sh.mu.Unlock()
}
func (sh *Shared) noteInit(p, msg string) {
	sh.mu.Lock()
	sh.initNote[p] = msg
	sh.mu.Unlock()
}

func (sh *Shared) permMaps(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	p := fn.Pkg.Pkg.Path()
	for _, x := range sh.permPkgs {
		if p == x {
			return true
		}
	}
	return false
}

func NewWorker(sh *Shared) *Worker {
	w := &Worker{sh: sh, prog: sh.prog, tc: NewTermCtx(), solver: &Solver{sh: sh.solver},
		sizes: types.SizesFor("gc", "amd64"), fns: map[*ssa.Function]*cfn{}, globals: map[*ssa.Global]*Value{},
		inited: map[*ssa.Package]bool{}, canonP: map[types.Type]types.Type{}, canonT: newTypeMap(),
		implC: map[typePair]bool{}, methC: map[methodKey]*ssa.Function{}, rtypes: map[types.Type]*Iface{}, side: map[any]any{},
		stack: make([]Value, 1<<18), maxSteps: 20_000_000, maxDepth: 4000}
	if v, ok := sh.params["_steps"]; ok {
		w.maxSteps = v
	}
	return w
}

// ---- path condition

func (w *Worker) addPC(c *Term) {
	if c.Op == OAnd {
		if w.known[c] {
			return
		}
		w.known[c] = true
		w.addPC(c.A)
		w.addPC(c.B)
		return
	}
	if c.isC() || w.known[c] {
		return
	}
	w.known[c] = true
	w.learn(c)
	w.pc = append(w.pc, c)
	if c.Op == OEq && c.A.Op == OVar && c.B.isC() {
		w.fixed[c.A.V] = c.B.V
	}
	if c.Op == OVar {
		w.fixed[c.V] = 1
	}
	if c.Op == ONot && c.A.Op == OVar {
		w.fixed[c.A.V] = 0
	}
}

func (w *Worker) allFixed(t *Term) bool {
	if len(w.fixed) == 0 {
		return false
	}
	ok := true
	bitsEach(t.vars, func(i int) {
		if _, f := w.fixed[uint64(i)]; !f {
			ok = false
		}
	})
	return ok
}

// quick decides c without the solver where it can.
func (w *Worker) quick(c *Term) (bool, bool) {
	var open map[*Term]bool
	if c.size > 200 {
		open = map[*Term]bool{}
	}
	return w.quick1(c, open)
}

// quick1 has the terms that are not decided in open: terms share parts.
func (w *Worker) quick1(c *Term, open map[*Term]bool) (bool, bool) {
	if c.isC() {
		return c.V != 0, true
	}
	if w.known[c] {
		return true, true
	}
	if open[c] {
		return false, false
	}
	n := w.tc.Not(c)
	if w.known[n] {
		return false, true
	}
	if w.allFixed(c) {
		return Eval(c, w.model) != 0, true
	}
	switch c.Op {
	case OAnd:
		a, ok := w.quick1(c.A, open)
		if ok && !a {
			return false, true
		}
		b, ok2 := w.quick1(c.B, open)
		if ok2 && !b {
			return false, true
		}
		if ok && ok2 {
			return true, true
		}
	case OOr:
		a, ok := w.quick1(c.A, open)
		if ok && a {
			return true, true
		}
		b, ok2 := w.quick1(c.B, open)
		if ok2 && b {
			return true, true
		}
		if ok && ok2 {
			return false, true
		}
	case ONot:
		a, ok := w.quick1(c.A, open)
		if ok {
			return !a, true
		}
	default:
		return w.byRange(c)
	}
	if open != nil {
		open[c] = true
	}
	return false, false
}

// pin replaces symbolic values that the path condition fixes by constants.
func (w *Worker) pin(v Value) Value {
	switch x := v.P.(type) {
	case *Term:
		if w.allFixed(x) {
			return Value{N: Eval(x, w.model)}
		}
	case *SStr:
		ch := false
		for i := range x.b {
			if t := symOf(x.b[i]); t != nil && w.allFixed(t) {
				ch = true
				break
			}
		}
		if ch {
			nb := make([]Value, len(x.b))
			for i := range x.b {
				nb[i] = w.pin(x.b[i])
			}
			return mkStr(nb)
		}
	case *Iface:
		if x != nil {
			nv := w.pin(x.v)
			if _, isS := x.v.P.(*SStr); isS || symOf(x.v) != nil {
				return Value{P: &Iface{t: x.t, v: nv}}
			}
		}
	}
	return v
}

func (w *Worker) check(c *Term) (Verdict, map[int]uint64) {
	w.poll()
	vars := append([]uint64(nil), c.vars...)
	used := make([]bool, len(w.pc))
	var rel []*Term
	for {
		ch := false
		for i, p := range w.pc {
			if used[i] || !bitsIntersect(p.vars, vars) {
				continue
			}
			used[i] = true
			ch = true
			vars = orBits(vars, p.vars)
		}
		if !ch {
			break
		}
	}
	rel = append(rel, c)
	for i, p := range w.pc {
		if used[i] {
			rel = append(rel, p)
		}
	}
	return w.solver.Check(rel)
}

// poll ends the path when the run is over.
func (w *Worker) poll() {
	sh := w.sh
	sh.mu.Lock()
	stop := sh.stop
	sh.mu.Unlock()
	if stop {
		panic(pathEnd{"stopped"})
	}
	if time.Now().After(sh.deadline.Add(120 * time.Second)) {
		sh.mu.Lock()
		sh.timedOut = true
		sh.pending++
		sh.mu.Unlock()
		panic(pathEnd{"stopped"})
	}
}

func (w *Worker) modelWith(m map[int]uint64) []uint64 {
	r := make([]uint64, len(w.model))
	copy(r, w.model)
	for i, v := range m {
		for len(r) <= i {
			r = append(r, 0)
		}
		r[i] = v
	}
	return r
}

func (w *Worker) enqueue(d decision, model []uint64) {
	decs := make([]decision, len(w.decs)+1)
	copy(decs, w.decs)
	decs[len(w.decs)] = d
	sh := w.sh
	sh.mu.Lock()
	sh.queue = append(sh.queue, workItem{decs, model})
	sh.cond.Signal()
	sh.mu.Unlock()
}

// branch decides a symbolic condition, forking if both sides are feasible.
func (w *Worker) branch(c *Term) bool {
	if d, ok := w.quick(c); ok {
		return d
	}
	if w.inInit {
		panic(unsupported("symbolic branch during package initialisation"))
	}
	if w.nd < len(w.prefix) {
		d := w.prefix[w.nd]
		w.nd++
		w.decs = append(w.decs, d)
		side := d.v != 0
		w.take(c, side, d.forced)
		return side
	}
	side := Eval(c, w.model) != 0
	other := c
	if side {
		other = w.tc.Not(c)
	}
	v, m := w.check(other)
	forced := false
	switch v {
	case Unsat:
		forced = true
		w.sh.mu.Lock()
		w.sh.forced++
		w.sh.mu.Unlock()
	case Sat:
		w.enqueue(decision{v: b2i(!side)}, w.modelWith(m))
	case Unknown:
		w.sh.mu.Lock()
		w.sh.unkBranch++
		w.sh.mu.Unlock()
	}
	w.decs = append(w.decs, decision{v: b2i(side), forced: forced})
	w.nd++
	w.take(c, side, forced)
	return side
}

func b2i(b bool) int32 {
	if b {
		return 1
	}
	return 0
}

func (w *Worker) take(c *Term, side, forced bool) {
	if !side {
		c = w.tc.Not(c)
	}
	if forced {
		w.known[c] = true
		w.learn(c)
		return
	}
	w.addPC(c)
}

// choose makes an n-way nondeterministic choice.
func (w *Worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if w.nd < len(w.prefix) {
		d := w.prefix[w.nd]
		w.nd++
		w.decs = append(w.decs, d)
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		w.enqueue(decision{v: int32(i)}, w.model)
	}
	w.decs = append(w.decs, decision{v: 0})
	w.nd++
	return 0
}

// conc makes a value concrete, forking over its feasible values.
func (w *Worker) conc(v Value) Value {
	t := symOf(v)
	if t == nil {
		return v
	}
	for n := 0; ; n++ {
		if w.allFixed(t) {
			return Value{N: Eval(t, w.model)}
		}
		if w.nd < len(w.prefix) {
			d := w.prefix[w.nd]
			w.nd++
			w.decs = append(w.decs, d)
			eq := w.tc.Eq(t, w.tc.Const(t.W, d.k))
			w.take(eq, d.v != 0, d.forced)
			if d.v != 0 {
				return Value{N: d.k}
			}
			continue
		}
		if w.inInit {
			panic(unsupported("symbolic value during package initialisation"))
		}
		k := Eval(t, w.model)
		eq := w.tc.Eq(t, w.tc.Const(t.W, k))
		vd, m := w.check(w.tc.Not(eq))
		forced := false
		switch vd {
		case Unsat:
			forced = true
		case Sat:
			w.enqueue(decision{v: 0, k: k}, w.modelWith(m))
		case Unknown:
			w.sh.mu.Lock()
			w.sh.unkBranch++
			w.sh.mu.Unlock()
		}
		w.decs = append(w.decs, decision{v: 1, k: k, forced: forced})
		w.nd++
		w.take(eq, true, forced)
		return Value{N: k}
	}
}

// assume restricts the path.
func (w *Worker) assume(v Value) {
	t := symOf(v)
	if t == nil {
		if v.N == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	if d, ok := w.quick(t); ok {
		if !d {
			panic(pathEnd{"assume"})
		}
		return
	}
	if Eval(t, w.model) == 0 {
		vd, m := w.check(t)
		if vd != Sat {
			if vd == Unknown {
				w.sh.mu.Lock()
				w.sh.unkBranch++
				w.sh.mu.Unlock()
			}
			panic(pathEnd{"assume"})
		}
		w.model = w.modelWith(m)
	}
	w.addPC(t)
}

// assertV checks a property: the solver has to show that it cannot fail.
func (w *Worker) assertV(v Value, msg string) {
	w.sh.mu.Lock()
	w.sh.asserts++
	w.sh.mu.Unlock()
	t := symOf(v)
	if t == nil {
		if v.N == 0 {
			w.violation(msg, w.model)
			panic(pathEnd{"violation"})
		}
		return
	}
	if w.nd < len(w.prefix) { // already decided on the path this one was forked from
		w.addPC(t)
		return
	}
	w.sh.mu.Lock()
	w.sh.assertsSym++
	w.sh.mu.Unlock()
	if d, ok := w.quick(t); ok {
		if !d {
			w.violation(msg, w.model)
			panic(pathEnd{"violation"})
		}
		return
	}
	if Eval(t, w.model) == 0 {
		w.violation(msg, w.model)
		w.assume(v)
		return
	}
	vd, m := w.check(w.tc.Not(t))
	switch vd {
	case Sat:
		w.violation(msg, w.modelWith(m))
	case Unknown:
		w.sh.mu.Lock()
		w.sh.unkAssert++
		w.sh.mu.Unlock()
	}
	w.addPC(t)
}

func (w *Worker) vec(model []uint64) []uint64 {
	r := make([]uint64, len(w.inputs))
	for i, e := range w.inputs {
		if e.t != nil {
			r[i] = Eval(e.t, model)
		} else {
			r[i] = e.val
		}
	}
	return r
}

func (w *Worker) violation(msg string, model []uint64) {
	w.sh.emit(pathRec{Vec: w.vec(model), Status: "violation", Msg: msg})
}

func (w *Worker) newVar(kind byte, wd uint8) Value {
	i := w.nvars
	w.nvars++
	for len(w.model) <= i {
		w.model = append(w.model, 0)
	}
	t := w.tc.Var(wd, i)
	w.inputs = append(w.inputs, inputEv{kind: kind, t: t})
	return Value{P: t}
}

// evalStr renders a string value under the model.
func (w *Worker) evalStr(v Value, model []uint64) string {
	if s, ok := concStr(v); ok {
		return s
	}
	b := strBytes(v)
	out := make([]byte, len(b))
	for i := range b {
		if t := symOf(b[i]); t != nil {
			out[i] = byte(Eval(t, model))
		} else {
			out[i] = byte(b[i].N)
		}
	}
	return string(out)
}

func (w *Worker) runPath(it workItem) {
	w.tc.Reset()
	w.decs = w.decs[:0]
	w.prefix = it.decs
	w.nd = 0
	w.pc = w.pc[:0]
	w.known = map[*Term]bool{}
	w.ranges = map[uint64]rng{}
	w.rngMemo = map[*Term]rngEnt{}
	w.rngVer = 0
	w.inGo = 0
	w.fixed = map[uint64]uint64{}
	w.model = append([]uint64(nil), it.model...)
	w.nvars = 0
	w.inputs = w.inputs[:0]
	w.obs = w.obs[:0]
	w.knownHit = nil
	w.steps = 0
	w.sp, w.depth, w.cur, w.sloppy = 0, 0, nil, 0
	rec := pathRec{Status: "ok"}
	unsup := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					rec.Status = x.why
				case *goPanic:
					rec.Status = "panic"
					rec.Msg = w.panicText(x)
					if dbg {
						fmt.Println("panic:", rec.Msg)
					}
				case unsupportedErr:
					rec.Status = "unsupported"
					unsup = x.msg
					if dbg {
						fmt.Println("unsupported:", x.msg, "\n"+w.stackTrace())
					}
				default:
					rec.Status = "unsupported"
					unsup = fmt.Sprint("engine: ", r)
					if dbg {
						fmt.Println(unsup, "\n"+w.stackTrace(), string(debug.Stack()))
					}
				}
			}
		}()
		w.callSSA(w.sh.entry, nil, nil, nil)
	}()
	rec.Vec = w.vec(w.model)
	for _, o := range w.obs {
		rec.Obs = append(rec.Obs, w.evalStr(o, w.model))
	}
	rec.Known = w.knownHit
	w.rollback()

	sh := w.sh
	sh.mu.Lock()
	sh.paths++
	sh.stepsTotal += int64(w.steps)
	sh.branches += int64(len(w.decs) - len(it.decs))
	if len(w.decs) > sh.maxPathLen {
		sh.maxPathLen = len(w.decs)
	}
	switch rec.Status {
	case "ok":
		sh.okPaths++
	case "assume":
		sh.assumed++
	case "unsupported":
		sh.unsup[firstLine(unsup)]++
	case "steps", "depth":
		sh.limits[rec.Status]++
	}
	var viols []pathRec
	if rec.Status == "panic" {
		v := rec
		v.Status = "violation"
		v.Msg = "panic: " + rec.Msg
		viols = append(viols, v)
	}
	sh.mu.Unlock()
	for _, v := range viols {
		sh.emit(v)
	}
	if rec.Status != "stopped" && rec.Status != "assume" && rec.Status != "violation" && rec.Status != "panic" {
		sh.emit(rec)
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (w *Worker) loop() {
	sh := w.sh
	for {
		sh.mu.Lock()
		for len(sh.queue) == 0 && sh.busy > 0 && !sh.stop {
			sh.cond.Wait()
		}
		if sh.stop || len(sh.queue) == 0 {
			sh.stop = true
			sh.cond.Broadcast()
			sh.mu.Unlock()
			return
		}
		if time.Now().After(sh.deadline) {
			sh.timedOut = true
			sh.pending = len(sh.queue) + sh.busy
			sh.stop = true
			sh.cond.Broadcast()
			sh.mu.Unlock()
			return
		}
		it := sh.queue[len(sh.queue)-1]
		sh.queue = sh.queue[:len(sh.queue)-1]
		sh.busy++
		sh.mu.Unlock()
		w.runPath(it)
		sh.mu.Lock()
		sh.busy--
		if sh.busy == 0 && len(sh.queue) == 0 {
			sh.cond.Broadcast()
		}
		sh.mu.Unlock()
	}
}
