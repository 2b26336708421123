package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type compiler struct {
	w   *Worker
	c   *cfn
	reg map[ssa.Value]int32
}

func (w *Worker) compile(c *cfn) {
	fn := c.fn
	c.compiled = true
	if len(fn.Blocks) == 0 {
		c.nparams = len(fn.Params)
		c.nregs = len(fn.Params)
		msg := "no body: " + fnName(fn)
		b := &cblk{}
		b.code = []func(fr *frame){func(fr *frame) { panic(unsupported(msg)) }}
		b.term = tNone
		c.blocks = []*cblk{b}
		return
	}
	w.sh.noteFn(fn)
	k := &compiler{w: w, c: c, reg: map[ssa.Value]int32{}}
	n := int32(0)
	for _, p := range fn.Params {
		k.reg[p] = n
		n++
	}
	c.nparams = int(n)
	for _, p := range fn.FreeVars {
		k.reg[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				k.reg[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.hasDefer = true
			}
		}
	}
	c.nregs = int(n)
	c.blocks = make([]*cblk, len(fn.Blocks))
	for i := range fn.Blocks {
		c.blocks[i] = &cblk{idx: i, pure: true, term: tNone}
	}
	if fn.Recover != nil {
		if fn.Recover.Index < len(c.blocks) && fn.Blocks[fn.Recover.Index] == fn.Recover {
			c.recover = c.blocks[fn.Recover.Index]
		} else {
			rb := &cblk{idx: -1, term: tNone}
			c.recover = rb
			k.block(fn.Recover, rb)
		}
	}
	for i, b := range fn.Blocks {
		k.block(b, c.blocks[i])
	}
}

func predIndex(succ, b *ssa.BasicBlock, nth int) int {
	for i, p := range succ.Preds {
		if p == b {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	return 0
}

func (k *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{r: -1, v: k.w.constVal(x)}
	case *ssa.Function:
		return opnd{r: -1, v: Value{P: &Closure{fn: x}}}
	case *ssa.Global:
		return opnd{r: -1, v: Value{P: k.w.global(x)}}
	case *ssa.Builtin:
		return opnd{r: -1}
	}
	r, ok := k.reg[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("operand %s %T", v.Name(), v)))
	}
	return opnd{r: r}
}

func (k *compiler) block(b *ssa.BasicBlock, cb *cblk) {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			p := cphi{dst: k.reg[x]}
			for _, e := range x.Edges {
				p.edges = append(p.edges, k.op(e))
			}
			wd, _, ok := intInfo(x.Type())
			p.w, p.isInt = wd, ok
			if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
				p.isInt = false
			}
			cb.phis = append(cb.phis, p)
		case *ssa.DebugRef:
		case *ssa.Jump:
			cb.term = tJump
			cb.succ[0] = k.c.blocks[b.Succs[0].Index]
			cb.predIx[0] = predIndex(b.Succs[0], b, 0)
		case *ssa.If:
			cb.term = tIf
			cb.cond = k.op(x.Cond)
			cb.succ[0] = k.c.blocks[b.Succs[0].Index]
			cb.succ[1] = k.c.blocks[b.Succs[1].Index]
			cb.predIx[0] = predIndex(b.Succs[0], b, 0)
			if b.Succs[0] == b.Succs[1] {
				cb.predIx[1] = predIndex(b.Succs[1], b, 1)
			} else {
				cb.predIx[1] = predIndex(b.Succs[1], b, 0)
			}
		case *ssa.Return:
			cb.term = tReturn
			for _, r := range x.Results {
				cb.ret = append(cb.ret, k.op(r))
			}
		case *ssa.Panic:
			cb.term = tPanic
			cb.cond = k.op(x.X)
		default:
			f, pure := k.instr(in)
			if f != nil {
				cb.code = append(cb.code, f)
				if !pure {
					cb.pure = false
				}
			}
		}
	}
}

func (k *compiler) instr(in ssa.Instruction) (f func(fr *frame), pure bool) {
	w := k.w
	switch x := in.(type) {
	case *ssa.Alloc:
		d := k.reg[x]
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if isAggType(t) {
			return func(fr *frame) {
				p := new(Value)
				*p = w.zero(t)
				fr.regs[d] = Value{P: p}
			}, false
		}
		z := w.zero(t)
		return func(fr *frame) {
			p := new(Value)
			*p = z
			fr.regs[d] = Value{P: p}
		}, false
	case *ssa.BinOp:
		return k.binop(x)
	case *ssa.UnOp:
		return k.unop(x)
	case *ssa.Call:
		d := k.reg[x]
		call := k.call(&x.Call)
		return func(fr *frame) { fr.regs[d] = call(fr, nil) }, false
	case *ssa.ChangeInterface:
		d, a := k.reg[x], k.op(x.X)
		return func(fr *frame) { fr.regs[d] = a.get(fr) }, true
	case *ssa.ChangeType:
		d, a := k.reg[x], k.op(x.X)
		return func(fr *frame) { fr.regs[d] = a.get(fr) }, true
	case *ssa.Convert:
		d, a := k.reg[x], k.op(x.X)
		from, to := x.X.Type(), x.Type()
		fw, fs, fok := intInfo(from)
		tw, _, tok := intInfo(to)
		if fok && tok && fw > 0 && tw > 0 {
			return func(fr *frame) { fr.regs[d] = w.convInt(a.get(fr), fw, fs, tw) }, true
		}
		return func(fr *frame) { fr.regs[d] = w.convert(a.get(fr), from, to) }, false
	case *ssa.MultiConvert:
		d, a := k.reg[x], k.op(x.X)
		from, to := x.X.Type(), x.Type()
		return func(fr *frame) { fr.regs[d] = w.convert(a.get(fr), from, to) }, false
	case *ssa.Defer:
		call := k.deferCall(&x.Call)
		return func(fr *frame) { fr.defers = append(fr.defers, call(fr)) }, false
	case *ssa.Extract:
		d, a, i := k.reg[x], k.op(x.Tuple), x.Index
		return func(fr *frame) {
			t, ok := a.get(fr).P.(Tuple)
			if !ok {
				panic(unsupported("extract from non-tuple in " + fr.cf.fn.String()))
			}
			fr.regs[d] = t[i]
		}, false
	case *ssa.Field:
		d, a, i := k.reg[x], k.op(x.X), x.Field
		return func(fr *frame) { fr.regs[d] = a.get(fr).P.(*Agg).f[i] }, true
	case *ssa.FieldAddr:
		d, a, i := k.reg[x], k.op(x.X), x.Field
		return func(fr *frame) {
			p := w.ptr(a.get(fr))
			ag, ok := p.P.(*Agg)
			if !ok {
				panic(unsupported(fmt.Sprintf("field address of %T in %s", p.P, fr.cf.fn)))
			}
			fr.regs[d] = Value{P: &ag.f[i]}
		}, false
	case *ssa.Index:
		d, a, i := k.reg[x], k.op(x.X), k.op(x.Index)
		return func(fr *frame) { fr.regs[d] = w.index(a.get(fr), i.get(fr), x.Index.Type(), elemOf(x.X.Type())) }, false
	case *ssa.IndexAddr:
		d, a, i := k.reg[x], k.op(x.X), k.op(x.Index)
		var et types.Type
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Pointer:
			et = u.Elem().Underlying().(*types.Array).Elem()
		}
		// loads directly through the address may use a symbolic table read
		onlyLoad := true
		for _, r := range *x.Referrers() {
			if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
				onlyLoad = false
			}
		}
		return func(fr *frame) {
			var s []Value
			switch p := a.get(fr).P.(type) {
			case []Value:
				s = p
			case *Value:
				s = p.P.(*Agg).f
			case nil:
				if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
					w.nilDeref()
				}
			default:
				panic(unsupported(fmt.Sprintf("index address of %T", p)))
			}
			iv := i.get(fr)
			if iv.P == nil {
				n := iv.N
				if n >= uint64(len(s)) {
					w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(n), len(s)))
				}
				fr.regs[d] = Value{P: &s[n]}
				return
			}
			if onlyLoad {
				cell := new(Value)
				*cell = w.tableRead(s, iv, x.Index.Type(), et)
				fr.regs[d] = Value{P: cell}
				return
			}
			n := w.symIndex(iv, x.Index.Type(), len(s))
			fr.regs[d] = Value{P: &s[n]}
		}, false
	case *ssa.Lookup:
		d, a, i := k.reg[x], k.op(x.X), k.op(x.Index)
		if isString(x.X.Type()) {
			return func(fr *frame) { fr.regs[d] = w.index(a.get(fr), i.get(fr), x.Index.Type(), types.Typ[types.Uint8]) }, false
		}
		mt := x.X.Type().Underlying().(*types.Map)
		return func(fr *frame) {
			m, _ := a.get(fr).P.(*Map)
			n := w.mapFind(m, i.get(fr))
			var v Value
			if n >= 0 {
				v = m.ents[n].v
			} else {
				v = w.zero(mt.Elem())
			}
			if x.CommaOk {
				fr.regs[d] = Value{P: Tuple{v, vbool(n >= 0)}}
			} else {
				fr.regs[d] = v
			}
		}, false
	case *ssa.MakeChan:
		d, sz := k.reg[x], k.op(x.Size)
		return func(fr *frame) { fr.regs[d] = Value{P: &Chan{cap: int(sz.get(fr).N)}} }, false
	case *ssa.MakeClosure:
		d := k.reg[x]
		fn := x.Fn.(*ssa.Function)
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, k.op(b))
		}
		return func(fr *frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.regs[d] = Value{P: &Closure{fn: fn, env: env}}
		}, false
	case *ssa.MakeInterface:
		d, a := k.reg[x], k.op(x.X)
		t := w.canon(x.X.Type())
		return func(fr *frame) { fr.regs[d] = Value{P: &Iface{t: t, v: a.get(fr)}} }, true
	case *ssa.MakeMap:
		d := k.reg[x]
		kt := x.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) { fr.regs[d] = Value{P: newMap(kt)} }, false
	case *ssa.MakeSlice:
		d, l, c := k.reg[x], k.op(x.Len), k.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame) {
			ln, cp := int(int64(w.conc(l.get(fr)).N)), int(int64(w.conc(c.get(fr)).N))
			if ln < 0 || ln > 1<<26 {
				w.rtPanic("makeslice: len out of range")
			}
			if cp < ln || cp > 1<<26 {
				w.rtPanic("makeslice: cap out of range")
			}
			fr.regs[d] = Value{P: w.makeSlice(et, ln, cp)}
		}, false
	case *ssa.MapUpdate:
		a, i, v := k.op(x.Map), k.op(x.Key), k.op(x.Value)
		return func(fr *frame) {
			m, _ := a.get(fr).P.(*Map)
			if m == nil {
				panic(&goPanic{v: w.plainError("assignment to entry in nil map"), runtime: "assignment to entry in nil map", where: w.where(fr)})
			}
			w.mapSet(m, i.get(fr), v.get(fr))
		}, false
	case *ssa.Range:
		d, a := k.reg[x], k.op(x.X)
		if isString(x.X.Type()) {
			return func(fr *frame) { fr.regs[d] = Value{P: &rangeIter{str: a.get(fr)}} }, false
		}
		perm := w.sh.permMaps(k.c.fn)
		return func(fr *frame) {
			m, _ := a.get(fr).P.(*Map)
			it := &rangeIter{m: m}
			if m != nil {
				for i := range m.ents {
					if m.ents[i].live {
						it.keys = append(it.keys, i)
					}
				}
				if perm && len(it.keys) > 1 && !w.inInit {
					w.permute(it.keys)
				}
			}
			fr.regs[d] = Value{P: it}
		}, false
	case *ssa.Next:
		d, a := k.reg[x], k.op(x.Iter)
		if x.IsString {
			return func(fr *frame) {
				it := a.get(fr).P.(*rangeIter)
				if it.pos >= strLen(it.str) {
					fr.regs[d] = Value{P: Tuple{Value{}, Value{}, Value{}}}
					return
				}
				r, n := w.decodeRune(it.str, it.pos)
				fr.regs[d] = Value{P: Tuple{Value{N: 1}, vint(it.pos), r}}
				old := it.pos
				it.pos += n
				_ = old
			}, false
		}
		return func(fr *frame) {
			it := a.get(fr).P.(*rangeIter)
			for it.m != nil && it.i < len(it.keys) {
				e := &it.m.ents[it.keys[it.i]]
				it.i++
				if e.live {
					fr.regs[d] = Value{P: Tuple{Value{N: 1}, e.k, e.v}}
					return
				}
			}
			// entries added during iteration are not visited (allowed by the language)
			fr.regs[d] = Value{P: Tuple{Value{}, Value{}, Value{}}}
		}, false
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }, false
	case *ssa.Slice:
		return k.slice(x), false
	case *ssa.SliceToArrayPointer:
		d, a := k.reg[x], k.op(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := sliceOf(a.get(fr))
			if len(s) < n {
				w.rtPanic("cannot convert slice to array pointer")
			}
			p := new(Value)
			p.P = &Agg{f: s[:n:n]}
			fr.regs[d] = Value{P: p}
		}, false
	case *ssa.Store:
		a, v := k.op(x.Addr), k.op(x.Val)
		return func(fr *frame) { w.store(w.ptr(a.get(fr)), v.get(fr)) }, false
	case *ssa.TypeAssert:
		return k.typeAssert(x), false
	case *ssa.Go:
		// run to its end at once; what it sends is kept until it is received
		f := k.prepare(&x.Call)
		return func(fr *frame) {
			w.inGo++
			defer func() { w.inGo-- }()
			f(fr)(nil)
		}, false
	case *ssa.Select:
		return k.selectStmt(x), false
	case *ssa.Send:
		a, v := k.op(x.Chan), k.op(x.X)
		return func(fr *frame) {
			c, _ := a.get(fr).P.(*Chan)
			if c == nil || len(c.buf) >= c.cap && w.inGo == 0 {
				panic(unsupported("blocking send"))
			}
			c.buf = append(c.buf, v.get(fr))
		}, false
	}
	msg := fmt.Sprintf("instruction %T", in)
	return func(fr *frame) { panic(unsupported(msg)) }, false
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return nil
}

func (k *compiler) binop(x *ssa.BinOp) (func(fr *frame), bool) {
	w := k.w
	d, a, b := k.reg[x], k.op(x.X), k.op(x.Y)
	t, yt, op := x.X.Type(), x.Y.Type(), x.Op
	if wd, signed, ok := intInfo(t); ok && wd > 0 {
		pure := true
		switch op {
		case token.QUO, token.REM, token.SHL, token.SHR:
			pure = false
			if (op == token.SHL || op == token.SHR) && b.r < 0 {
				pure = true
			}
			if (op == token.QUO || op == token.REM) && b.r < 0 && b.v.N != 0 {
				pure = true
			}
		}
		m := maskW(wd)
		switch op {
		case token.ADD:
			return func(fr *frame) {
				p, q := a.get(fr), b.get(fr)
				if p.P == nil && q.P == nil {
					fr.regs[d] = Value{N: (p.N + q.N) & m}
					return
				}
				fr.regs[d] = w.intOp(op, wd, signed, p, q, yt)
			}, true
		case token.EQL:
			return func(fr *frame) {
				p, q := a.get(fr), b.get(fr)
				if p.P == nil && q.P == nil {
					fr.regs[d] = vbool(p.N == q.N)
					return
				}
				fr.regs[d] = w.intOp(op, wd, signed, p, q, yt)
			}, true
		case token.LSS:
			if signed && wd == 64 {
				return func(fr *frame) {
					p, q := a.get(fr), b.get(fr)
					if p.P == nil && q.P == nil {
						fr.regs[d] = vbool(int64(p.N) < int64(q.N))
						return
					}
					fr.regs[d] = w.intOp(op, wd, signed, p, q, yt)
				}, true
			}
		}
		return func(fr *frame) { fr.regs[d] = w.intOp(op, wd, signed, a.get(fr), b.get(fr), yt) }, pure
	}
	pure := isString(t)
	if wd, _, ok := intInfo(t); ok && wd == 0 {
		pure = true
	}
	// comparisons with nil
	if op == token.EQL || op == token.NEQ {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Chan:
			pure = true
		}
		if c, ok := x.Y.(*ssa.Const); ok && c.Value == nil {
			if _, isI := t.Underlying().(*types.Interface); isI {
				return func(fr *frame) {
					fr.regs[d] = vbool((a.get(fr).P == nil) == (op == token.EQL))
				}, true
			}
			pure = true
		}
	}
	return func(fr *frame) { fr.regs[d] = w.binop(op, t, yt, a.get(fr), b.get(fr)) }, pure
}

func (k *compiler) unop(x *ssa.UnOp) (func(fr *frame), bool) {
	w := k.w
	d, a := k.reg[x], k.op(x.X)
	switch x.Op {
	case token.MUL:
		return func(fr *frame) {
			v := a.get(fr)
			if p, ok := v.P.(*Value); ok {
				if _, isAgg := p.P.(*Agg); !isAgg {
					fr.regs[d] = *p
					return
				}
			}
			fr.regs[d] = w.load(v)
		}, false
	case token.NOT:
		return func(fr *frame) { fr.regs[d] = w.notV(a.get(fr)) }, true
	case token.SUB:
		if wd, s, ok := intInfo(x.Type()); ok {
			return func(fr *frame) { fr.regs[d] = w.intOp(token.SUB, wd, s, Value{}, a.get(fr), x.Type()) }, true
		}
		return func(fr *frame) { fr.regs[d] = vfloat(-math.Float64frombits(w.conc(a.get(fr)).N)) }, false
	case token.XOR:
		wd, s, _ := intInfo(x.Type())
		return func(fr *frame) {
			fr.regs[d] = w.intOp(token.XOR, wd, s, a.get(fr), Value{N: maskW(wd)}, x.Type())
		}, true
	case token.ARROW:
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			c, _ := a.get(fr).P.(*Chan)
			var v Value
			ok := false
			switch {
			case c != nil && len(c.buf) > 0:
				v, ok = c.buf[0], true
				c.buf = c.buf[1:]
			case c != nil && c.closed:
				v = w.zero(et)
			default:
				panic(unsupported("blocking receive"))
			}
			if x.CommaOk {
				fr.regs[d] = Value{P: Tuple{v, vbool(ok)}}
			} else {
				fr.regs[d] = v
			}
		}, false
	}
	panic(unsupported("unop " + x.Op.String()))
}

func (w *Worker) convInt(v Value, fw uint8, fs bool, tw uint8) Value {
	if v.P == nil {
		if fs {
			return Value{N: uint64(sext64(v.N, fw)) & maskW(tw)}
		}
		return Value{N: v.N & maskW(tw)}
	}
	t, ok := v.P.(*Term)
	if !ok {
		return v
	}
	if tw == fw {
		return v
	}
	if tw < fw {
		return vterm(w.tc.Extract(tw, t))
	}
	if fs {
		return vterm(w.tc.Sext(tw, t))
	}
	return vterm(w.tc.Zext(tw, t))
}

func (w *Worker) convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	fw, fs, fint := intInfo(from)
	tw, ts, tint := intInfo(to)
	fbits, ffl := isFloat(from)
	tbits, tfl := isFloat(to)
	_ = fbits
	switch {
	case fint && tint:
		return w.convInt(v, fw, fs, tw)
	case fint && tfl:
		v = w.conc(v)
		var f float64
		if fs {
			f = float64(sext64(v.N, fw))
		} else {
			f = float64(v.N)
		}
		if tbits == 32 {
			f = float64(float32(f))
		}
		return vfloat(f)
	case ffl && tfl:
		if tbits == 32 {
			return vfloat(float64(float32(math.Float64frombits(v.N))))
		}
		return v
	case ffl && tint:
		f := math.Float64frombits(v.N)
		if ts {
			return Value{N: uint64(int64(f)) & maskW(tw)}
		}
		return Value{N: uint64(f) & maskW(tw)}
	case isString(from) && isString(to):
		return v
	case fint && isString(to):
		return mkStr(w.encodeRune(w.convInt(v, fw, fs, 64), 64))
	}
	if isString(to) {
		if s, ok := fu.(*types.Slice); ok {
			if ew, _, _ := intInfo(s.Elem()); ew == 8 {
				return mkStrCopy(sliceOf(v))
			}
			var out []Value
			for _, r := range sliceOf(v) {
				out = append(out, w.encodeRune(r, 32)...)
			}
			return mkStr(out)
		}
	}
	if isString(from) {
		if s, ok := tu.(*types.Slice); ok {
			if ew, _, _ := intInfo(s.Elem()); ew == 8 {
				b := strBytes(v)
				r := make([]Value, len(b))
				copy(r, b)
				return Value{P: r}
			}
			out := []Value{}
			for p := 0; p < strLen(v); {
				r, n := w.decodeRune(v, p)
				out = append(out, r)
				p += n
			}
			return Value{P: out[:len(out):len(out)]}
		}
	}
	if _, ok := fu.(*types.Basic); ok {
		if _, ok := tu.(*types.Pointer); ok { // unsafe.Pointer -> *T
			return v
		}
	}
	if _, ok := fu.(*types.Pointer); ok {
		return v // *T -> unsafe.Pointer
	}
	if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if types.Identical(fu, tu) {
		return v
	}
	if _, ok := fu.(*types.Slice); ok {
		if at, ok := tu.(*types.Array); ok {
			s := sliceOf(v)
			if int64(len(s)) < at.Len() {
				w.rtPanic("cannot convert slice to array")
			}
			return Value{P: copyAgg(&Agg{f: s[:at.Len()]})}
		}
	}
	panic(unsupported(fmt.Sprintf("convert %s to %s", from, to)))
}

// decodeRune decodes the rune at position p, forking on symbolic bytes.
func (w *Worker) decodeRune(s Value, p int) (Value, int) {
	tc := w.tc
	b0 := strIdx(s, p)
	if t, ok := b0.P.(*Term); ok {
		if w.branch(tc.Bin(OUlt, t, tc.Const(8, 0x80))) {
			return vterm(tc.Zext(32, t)), 1
		}
	} else if b0.N < 0x80 {
		return b0, 1
	}
	bad := Value{N: 0xFFFD}
	at := func(i int) (*Term, bool) {
		if p+i >= strLen(s) {
			return nil, false
		}
		return w.term(strIdx(s, p+i), 8), true
	}
	in := func(t *Term, lo, hi uint64) bool {
		return w.br(tc.And(tc.Bin(OUle, tc.Const(8, lo), t), tc.Bin(OUle, t, tc.Const(8, hi))))
	}
	t0 := w.term(b0, 8)
	cont := func(i int, lo, hi uint64) (*Term, bool) {
		t, ok := at(i)
		if !ok || !in(t, lo, hi) {
			return nil, false
		}
		return t, true
	}
	bitsOf := func(t *Term, mask uint64, sh uint64) *Term {
		return tc.Bin(OShl, tc.Zext(32, tc.Bin(OBAnd, t, tc.Const(8, mask))), tc.Const(32, sh))
	}
	or := func(ts ...*Term) Value {
		r := ts[0]
		for _, x := range ts[1:] {
			r = tc.Bin(OBOr, r, x)
		}
		return vterm(r)
	}
	if in(t0, 0xC2, 0xDF) {
		t1, ok := cont(1, 0x80, 0xBF)
		if !ok {
			return bad, 1
		}
		return or(bitsOf(t0, 0x1F, 6), bitsOf(t1, 0x3F, 0)), 2
	}
	if in(t0, 0xE0, 0xEF) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if w.br(tc.Eq(t0, tc.Const(8, 0xE0))) {
			lo = 0xA0
		} else if w.br(tc.Eq(t0, tc.Const(8, 0xED))) {
			hi = 0x9F
		}
		t1, ok := cont(1, lo, hi)
		if !ok {
			return bad, 1
		}
		t2, ok := cont(2, 0x80, 0xBF)
		if !ok {
			return bad, 1
		}
		return or(bitsOf(t0, 0x0F, 12), bitsOf(t1, 0x3F, 6), bitsOf(t2, 0x3F, 0)), 3
	}
	if in(t0, 0xF0, 0xF4) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if w.br(tc.Eq(t0, tc.Const(8, 0xF0))) {
			lo = 0x90
		} else if w.br(tc.Eq(t0, tc.Const(8, 0xF4))) {
			hi = 0x8F
		}
		t1, ok := cont(1, lo, hi)
		if !ok {
			return bad, 1
		}
		t2, ok := cont(2, 0x80, 0xBF)
		if !ok {
			return bad, 1
		}
		t3, ok := cont(3, 0x80, 0xBF)
		if !ok {
			return bad, 1
		}
		return or(bitsOf(t0, 0x07, 18), bitsOf(t1, 0x3F, 12), bitsOf(t2, 0x3F, 6), bitsOf(t3, 0x3F, 0)), 4
	}
	return bad, 1
}

// encodeRune returns the UTF-8 bytes of a rune value of width wd.
func (w *Worker) encodeRune(r Value, wd uint8) []Value {
	if r.P == nil {
		x := sext64(r.N, wd)
		if x < 0 || x > 0x10FFFF {
			x = 0xFFFD
		}
		return strBytes(vstr(string(rune(x))))
	}
	tc := w.tc
	t := w.term(r, wd)
	k := func(v uint64) *Term { return tc.Const(wd, v) }
	by := func(or, sh, mask uint64) Value {
		x := t
		if sh > 0 {
			x = tc.Bin(OLshr, t, k(sh))
		}
		x = tc.Extract(8, x)
		x = tc.Bin(OBAnd, x, tc.Const(8, mask))
		return vterm(tc.Bin(OBOr, x, tc.Const(8, or)))
	}
	if w.br(tc.Bin(OUle, t, k(0x7F))) {
		return []Value{vterm(tc.Extract(8, t))}
	}
	if w.br(tc.Bin(OUle, t, k(0x7FF))) {
		return []Value{by(0xC0, 6, 0x1F), by(0x80, 0, 0x3F)}
	}
	if w.br(tc.Or(tc.Bin(OUlt, k(0x10FFFF), t), tc.And(tc.Bin(OUle, k(0xD800), t), tc.Bin(OUle, t, k(0xDFFF))))) {
		return strBytes(vstr("�"))
	}
	if w.br(tc.Bin(OUle, t, k(0xFFFF))) {
		return []Value{by(0xE0, 12, 0x0F), by(0x80, 6, 0x3F), by(0x80, 0, 0x3F)}
	}
	return []Value{by(0xF0, 18, 0x07), by(0x80, 12, 0x3F), by(0x80, 6, 0x3F), by(0x80, 0, 0x3F)}
}

// br is branch that accepts constants.
func (w *Worker) br(t *Term) bool {
	if t.isC() {
		return t.V != 0
	}
	return w.branch(t)
}

func (w *Worker) truth(v Value) bool {
	if t, ok := v.P.(*Term); ok {
		return w.br(t)
	}
	return v.N != 0
}

// symIndex bounds-checks and concretises a symbolic index.
func (w *Worker) symIndex(iv Value, it types.Type, n int) int {
	wd, signed, _ := intInfo(it)
	t := symOf(iv)
	tc := w.tc
	var ok *Term
	if wd < 64 && uint64(n) > maskW(wd) {
		ok = tc.t
		if signed {
			ok = tc.Bin(OSle, tc.Const(wd, 0), t)
		}
	} else {
		ok = tc.Bin(OUlt, t, tc.Const(wd, uint64(n)))
	}
	if !w.br(ok) {
		w.rtPanic("index out of range")
	}
	return int(w.conc(iv).N)
}

// tableRead reads s[iv] for symbolic iv, as an ite over runs of equal values
// when all elements are scalars.
func (w *Worker) tableRead(s []Value, iv Value, it, et types.Type) Value {
	wd, signed, _ := intInfo(it)
	iv = w.pin(iv)
	if iv.P == nil {
		if iv.N >= uint64(len(s)) {
			w.rtPanic("index out of range")
		}
		return s[iv.N]
	}
	ew, _, eint := intInfo(et)
	tc := w.tc
	t := symOf(iv)
	if eint {
		runs := 1
		for i := range s {
			if s[i].P != nil && symOf(s[i]) == nil {
				runs = 1 << 20
				break
			}
			if i > 0 && s[i] != s[i-1] {
				runs++
			}
		}
		if runs <= 300 && len(s) > 0 {
			var ok *Term
			if wd < 64 && uint64(len(s)) > maskW(wd) {
				ok = tc.t
				if signed {
					ok = tc.Bin(OSle, tc.Const(wd, 0), t)
				}
			} else {
				ok = tc.Bin(OUlt, t, tc.Const(wd, uint64(len(s))))
			}
			if !w.br(ok) {
				w.rtPanic("index out of range")
			}
			r := w.term(s[len(s)-1], ew)
			for i := len(s) - 2; i >= 0; i-- {
				if s[i] != s[i+1] {
					r = tc.Ite(tc.Bin(OUle, t, tc.Const(wd, uint64(i))), w.term(s[i], ew), r)
				}
			}
			return vterm(r)
		}
	}
	return s[w.symIndex(iv, it, len(s))]
}

func (w *Worker) index(a, iv Value, it, et types.Type) Value {
	var n int
	if ag, ok := a.P.(*Agg); ok {
		n = len(ag.f)
		if iv.P != nil {
			return w.tableRead(ag.f, iv, it, et)
		}
	} else {
		n = strLen(a)
		if iv.P != nil {
			return w.tableRead(strBytes(a), iv, it, et)
		}
	}
	if iv.N >= uint64(n) {
		w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(iv.N), n))
	}
	if ag, ok := a.P.(*Agg); ok {
		return ag.f[iv.N]
	}
	return strIdx(a, int(iv.N))
}

func (w *Worker) makeSlice(et types.Type, ln, cp int) []Value {
	s := make([]Value, cp)
	if isAggType(et) {
		for i := range s {
			s[i] = w.zero(et)
		}
	} else if isString(et) {
		for i := range s {
			s[i].P = ""
		}
	}
	return s[:ln:cp]
}

func (k *compiler) slice(x *ssa.Slice) func(fr *frame) {
	w := k.w
	d, a := k.reg[x], k.op(x.X)
	opt := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		o := k.op(v)
		return &o
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	isStr := isString(x.X.Type())
	_, isPtr := x.X.Type().Underlying().(*types.Pointer)
	return func(fr *frame) {
		v := a.get(fr)
		gi := func(o *opnd, def int) int {
			if o == nil {
				return def
			}
			return int(int64(w.conc(o.get(fr)).N))
		}
		if isStr {
			n := strLen(v)
			l, h := gi(lo, 0), gi(hi, n)
			if l < 0 || h < l || h > n {
				w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			fr.regs[d] = strSlice(v, l, h)
			return
		}
		var s []Value
		if isPtr {
			s = w.ptr(v).P.(*Agg).f
		} else if sd, ok := v.P.(*sdPtr); ok {
			s = sd.s
		} else {
			s = sliceOf(v)
		}
		l := gi(lo, 0)
		h := gi(hi, len(s))
		m := gi(mx, cap(s))
		if l < 0 || h < l || m < h || m > cap(s) {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cap(s)))
		}
		if s == nil {
			fr.regs[d] = Value{}
			return
		}
		fr.regs[d] = Value{P: s[l:h:m]}
	}
}

func (k *compiler) typeAssert(x *ssa.TypeAssert) func(fr *frame) {
	w := k.w
	d, a := k.reg[x], k.op(x.X)
	at := x.AssertedType
	it, isI := at.Underlying().(*types.Interface)
	ct := w.canon(at)
	return func(fr *frame) {
		i, _ := a.get(fr).P.(*Iface)
		ok := false
		if i != nil {
			if isI {
				ok = w.implements(i.t, it)
			} else {
				ok = i.t == ct
			}
		}
		if x.CommaOk {
			var v Value
			if ok {
				if isI {
					v = Value{P: i}
				} else {
					v = i.v
				}
			} else {
				v = w.zero(at)
			}
			fr.regs[d] = Value{P: Tuple{v, vbool(ok)}}
			return
		}
		if !ok {
			dyn := "nil"
			if i != nil {
				dyn = i.t.String()
			}
			msg := "interface conversion: interface is " + dyn + ", not " + at.String()
			panic(&goPanic{v: w.plainError(msg), runtime: msg, where: w.where(fr)})
		}
		if isI {
			fr.regs[d] = Value{P: i}
		} else {
			fr.regs[d] = i.v
		}
	}
}

func (w *Worker) plainError(msg string) Value { return w.runtimeError(msg) }

// selectStmt takes the first case that is ready.
func (k *compiler) selectStmt(x *ssa.Select) func(fr *frame) {
	w := k.w
	d := k.reg[x]
	type st struct {
		ch, v opnd
		send  bool
		et    types.Type
	}
	var sts []st
	for _, s := range x.States {
		c := st{ch: k.op(s.Chan), send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if c.send {
			c.v = k.op(s.Send)
		}
		sts = append(sts, c)
	}
	return func(fr *frame) {
		res := Tuple{Value{N: ^uint64(0)}, Value{}}
		done := false
		for i := range sts {
			c, _ := sts[i].ch.get(fr).P.(*Chan)
			if sts[i].send {
				if !done && c != nil && len(c.buf) < c.cap && !c.closed {
					c.buf = append(c.buf, sts[i].v.get(fr))
					res[0], done = vint(i), true
				}
				continue
			}
			v := w.zero(sts[i].et)
			if !done && c != nil && (len(c.buf) > 0 || c.closed) {
				res[0], done = vint(i), true
				if len(c.buf) > 0 {
					v = c.buf[0]
					c.buf = c.buf[1:]
					res[1] = vbool(true)
				}
			}
			res = append(res, v)
		}
		if !done && x.Blocking {
			panic(unsupported("blocking select"))
		}
		fr.regs[d] = Value{P: res}
	}
}

// ---- calls

func (k *compiler) call(cc *ssa.CallCommon) func(fr *frame, of *frame) Value {
	p := k.prepare(cc)
	w := k.w
	var static *cfn
	if !cc.IsInvoke() {
		if f, ok := cc.Value.(*ssa.Function); ok {
			var ops []opnd
			for _, a := range cc.Args {
				ops = append(ops, k.op(a))
			}
			return func(fr *frame, of *frame) Value {
				if static == nil {
					static = w.getFn(f)
				}
				var buf [8]Value
				args := buf[:0]
				if static.intr != nil {
					args = make([]Value, 0, len(ops))
				}
				for i := range ops {
					args = append(args, ops[i].get(fr))
				}
				return w.call(static, args, nil, of)
			}
		}
	}
	return func(fr *frame, of *frame) Value { return p(fr)(of) }
}

func (k *compiler) deferCall(cc *ssa.CallCommon) func(fr *frame) func(of *frame) {
	p := k.prepare(cc)
	return func(fr *frame) func(of *frame) {
		c := p(fr)
		return func(of *frame) { c(of) }
	}
}

// prepare evaluates callee and arguments; the result performs the call.
func (k *compiler) prepare(cc *ssa.CallCommon) func(fr *frame) func(of *frame) Value {
	w := k.w
	var ops []opnd
	for _, a := range cc.Args {
		ops = append(ops, k.op(a))
	}
	eval := func(fr *frame, n int) []Value {
		args := make([]Value, n, n+len(ops))
		for i := range ops {
			args = append(args, ops[i].get(fr))
		}
		return args
	}
	if cc.IsInvoke() {
		recv := k.op(cc.Value)
		m := cc.Method
		return func(fr *frame) func(of *frame) Value {
			args := eval(fr, 1)
			i, _ := recv.get(fr).P.(*Iface)
			if i == nil {
				w.nilDeref()
			}
			if rt, ok := i.v.P.(*RType); ok {
				return func(of *frame) Value { return w.rtypeMethod(rt, m.Name(), args[1:]) }
			}
			args[0] = i.v
			f := w.method(i.t, m)
			if f == nil {
				panic(unsupported("method " + m.Name() + " of " + i.t.String()))
			}
			return func(of *frame) Value { return w.callSSA(f, args, nil, of) }
		}
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		name := v.Name()
		var at []types.Type
		for _, a := range cc.Args {
			at = append(at, a.Type())
		}
		return func(fr *frame) func(of *frame) Value {
			args := eval(fr, 0)
			return func(of *frame) Value { return w.builtin(fr, name, args, at, cc) }
		}
	case *ssa.Function:
		return func(fr *frame) func(of *frame) Value {
			args := eval(fr, 0)
			return func(of *frame) Value { return w.callSSA(v, args, nil, of) }
		}
	}
	fo := k.op(cc.Value)
	return func(fr *frame) func(of *frame) Value {
		args := eval(fr, 0)
		c, _ := fo.get(fr).P.(*Closure)
		return func(of *frame) Value {
			if c == nil {
				w.nilDeref()
			}
			return w.callClosure(c, args, of)
		}
	}
}

func (w *Worker) callClosure(c *Closure, args []Value, of *frame) Value {
	if c.nat != nil {
		return c.nat(w, args)
	}
	return w.callSSA(c.fn, args, c.env, of)
}

func (w *Worker) builtin(fr *frame, name string, args []Value, at []types.Type, cc *ssa.CallCommon) Value {
	switch name {
	case "len":
		switch x := args[0].P.(type) {
		case nil:
			return Value{}
		case string, *SStr:
			return vint(strLen(args[0]))
		case []Value:
			return vint(len(x))
		case *Map:
			if x == nil {
				return Value{}
			}
			return vint(x.n)
		case *Agg:
			return vint(len(x.f))
		case *Value:
			return vint(len(x.P.(*Agg).f))
		case *Chan:
			return vint(len(x.buf))
		}
	case "cap":
		switch x := args[0].P.(type) {
		case nil:
			return Value{}
		case []Value:
			return vint(cap(x))
		case *Agg:
			return vint(len(x.f))
		case *Chan:
			return vint(x.cap)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		var add []Value
		if isString(at[1]) {
			add = strBytes(args[1])
		} else {
			add = sliceOf(args[1])
		}
		return w.appendSlice(args[0], add, at[0].Underlying().(*types.Slice).Elem())
	case "copy":
		dst := sliceOf(args[0])
		var src []Value
		if isString(at[1]) {
			src = strBytes(args[1])
		} else {
			src = sliceOf(args[1])
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		if n == 0 {
			return Value{}
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			w.store(&dst[i], tmp[i])
		}
		return vint(n)
	case "delete":
		if m, _ := args[0].P.(*Map); m != nil {
			w.mapDelete(m, args[1])
		}
		return Value{}
	case "clear":
		switch x := args[0].P.(type) {
		case *Map:
			for i := range x.ents {
				if x.ents[i].live {
					w.mapDelete(x, x.ents[i].k)
				}
			}
		case []Value:
			z := at[0].Underlying().(*types.Slice).Elem()
			for i := range x {
				w.store(&x[i], w.zero(z))
			}
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "recover":
		of := fr.deferOf
		if of != nil && of.pan != nil {
			v := of.pan.v
			of.pan = nil
			return v
		}
		return Value{}
	case "panic":
		panic(&goPanic{v: args[0], where: w.where(fr)})
	case "min", "max":
		t := at[0]
		r := args[0]
		for _, x := range args[1:] {
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			c := w.binop(op, t, t, x, r)
			if wd, _, ok := intInfo(t); ok {
				r = vterm(w.tc.Ite(w.term(c, 0), w.term(x, wd), w.term(r, wd)))
			} else if w.truth(c) {
				r = x
			}
		}
		return r
	case "close":
		if c, _ := args[0].P.(*Chan); c != nil {
			c.closed = true
		}
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].P == nil {
			w.nilDeref()
		}
		return args[0]
	case "SliceData":
		if args[0].P == nil {
			return Value{}
		}
		return Value{P: &sdPtr{s: sliceOf(args[0])}}
	case "StringData":
		return Value{P: &sdPtr{str: args[0], s: strBytes(args[0])}}
	case "String":
		n := int(w.conc(args[1]).N)
		switch p := args[0].P.(type) {
		case nil:
			return vstr("")
		case *sdPtr:
			return mkStrCopy(p.s[:n])
		case *Value:
			return mkStrCopy(unsafe.Slice(p, n))
		}
	case "Slice":
		n := int(w.conc(args[1]).N)
		switch p := args[0].P.(type) {
		case nil:
			return Value{}
		case *sdPtr:
			return Value{P: p.s[:n:n]}
		case *Value:
			return Value{P: unsafe.Slice(p, n)}
		}
	}
	panic(unsupported(fmt.Sprintf("builtin %s on %T", name, func() any {
		if len(args) > 0 {
			return args[0].P
		}
		return nil
	}())))
}

func (w *Worker) appendSlice(sv Value, add []Value, et types.Type) Value {
	s := sliceOf(sv)
	if len(add) == 0 {
		return sv
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		tmp := add
		if isAggType(et) {
			tmp = make([]Value, len(add))
			for i := range add {
				tmp[i] = copyVal(add[i])
			}
		} else if len(add) > 1 {
			tmp = append([]Value(nil), add...)
		}
		for i := range tmp {
			w.store(&r[len(s)+i], tmp[i])
		}
		return Value{P: r}
	}
	nc := w.growCap(n, cap(s), et)
	r := w.makeSlice(et, n, nc)
	for i := range s {
		r[i] = copyVal(s[i])
	}
	for i := range add {
		r[len(s)+i] = copyVal(add[i])
	}
	return Value{P: r}
}

// growCap mirrors the growth policy of the runtime so that aliasing after
// append is the same as in the compiled program.
func (w *Worker) growCap(newLen, oldCap int, et types.Type) int {
	nc := oldCap
	double := nc + nc
	if newLen > double {
		nc = newLen
	} else if oldCap < 256 {
		nc = double
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	size := int(w.sizes.Sizeof(et))
	if size == 0 {
		return newLen
	}
	mem := nc * size
	mem = roundUp(mem, !hasPointers(et))
	c := mem / size
	if c < newLen {
		c = newLen
	}
	return c
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	}
	return true
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundUp(n int, noscan bool) int {
	req := n
	hdr := 0
	if !noscan && req > 512 {
		hdr = 8
	}
	if req+hdr <= 32768-8 || (hdr == 0 && req <= 32768) {
		i := sort.SearchInts(sizeClasses, req+hdr)
		if i < len(sizeClasses) {
			return sizeClasses[i] - hdr
		}
	}
	return (req + 8191) &^ 8191
}

func (w *Worker) permute(keys []int) {
	// nondeterministic iteration order: any rotation and any first element
	n := len(keys)
	if n > 4 {
		n = 4
	}
	for i := 0; i < n-1; i++ {
		j := i + w.choose(n-i)
		keys[i], keys[j] = keys[j], keys[i]
	}
}
