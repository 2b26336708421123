package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

// RType is a reflect.Type.
type RType struct{ t types.Type }

// RVal is a reflect.Value (nil = the zero Value).
type RVal struct {
	t    types.Type // canonical
	v    Value      // current value if not addressable
	addr *Value     // cell if addressable
	ro   bool
}

func (r *RVal) get() Value {
	if r.addr != nil {
		return copyVal(*r.addr)
	}
	return r.v
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

// rtype returns the reflect.Type interface value for t.
func (w *Worker) rtype(t types.Type) Value {
	t = w.canon(t)
	if i, ok := w.rtypes[t]; ok {
		return Value{P: i}
	}
	i := &Iface{t: w.canon(w.sh.rtypePtrT), v: Value{P: &RType{t}}}
	w.rtypes[t] = i
	return Value{P: i}
}

func (w *Worker) rtOf(v Value) *RType {
	if i, ok := v.P.(*Iface); ok && i != nil {
		if r, ok := i.v.P.(*RType); ok {
			return r
		}
	}
	if v.P == nil {
		w.nilDeref()
	}
	panic(unsupported(fmt.Sprintf("reflect.Type %T", v.P)))
}

func (w *Worker) rval(v Value) *RVal {
	r, _ := v.P.(*RVal)
	return r
}

func mkRVal(r *RVal) Value { return Value{P: r} }

func (w *Worker) reflPanic(msg string) {
	panic(&goPanic{v: Value{P: &Iface{t: w.canon(types.Typ[types.String]), v: vstr("reflect: " + msg)}}, where: w.where(w.cur)})
}

// valueOf: reflect.ValueOf on an interface value.
func (w *Worker) valueOf(iv Value) Value {
	i, _ := iv.P.(*Iface)
	if i == nil {
		return Value{}
	}
	return mkRVal(&RVal{t: i.t, v: i.v})
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (w *Worker) structField(st *types.Struct, i int, index []int) Value {
	f := st.Field(i)
	pkgPath := ""
	if !f.Exported() && f.Pkg() != nil {
		pkgPath = f.Pkg().Path()
	}
	fields := make([]*types.Var, st.NumFields())
	for k := range fields {
		fields[k] = st.Field(k)
	}
	off := w.sizes.Offsetsof(fields)[i]
	idx := make([]Value, len(index))
	for k, x := range index {
		idx[k] = vint(x)
	}
	// Name, PkgPath, Type, Tag, Offset, Index, Anonymous
	return Value{P: &Agg{f: []Value{vstr(f.Name()), vstr(pkgPath), w.rtype(f.Type()), vstr(st.Tag(i)), {N: uint64(off)}, {P: idx}, vbool(f.Embedded())}}}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (w *Worker) fieldByName(t types.Type, name string) (Value, bool) {
	obj, index, _ := types.LookupFieldOrMethod(t, true, nil, name)
	if obj == nil { // unexported fields need their package
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			obj, index, _ = types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), name)
		}
	}
	if _, ok := obj.(*types.Var); !ok {
		return Value{}, false
	}
	ct := t
	for _, i := range index[:len(index)-1] {
		ct = deref(ct.Underlying().(*types.Struct).Field(i).Type())
	}
	return w.structField(ct.Underlying().(*types.Struct), index[len(index)-1], index), true
}

// exported methods in sorted order, as reflect sees them.
func (w *Worker) methods(t types.Type) []*types.Selection {
	ms := w.prog.MethodSets.MethodSet(t)
	var r []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			r = append(r, ms.At(i))
		}
	}
	return r
}

func (w *Worker) rtypeMethod(rt *RType, name string, a []Value) Value {
	t := rt.t
	switch name {
	case "Kind":
		return vint(int(kindOf(t)))
	case "Name":
		switch n := t.(type) {
		case *types.Named:
			s := n.Obj().Name()
			if n.TypeArgs().Len() > 0 {
				s = typeString(t)
				if i := strings.LastIndex(s[:strings.Index(s, "[")], "."); i >= 0 {
					s = s[i+1:]
				}
			}
			return vstr(s)
		case *types.Basic:
			return vstr(n.Name())
		}
		return vstr("")
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return vstr(n.Obj().Pkg().Path())
		}
		return vstr("")
	case "String":
		return vstr(typeString(t))
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return w.rtype(u.Elem())
		case *types.Slice:
			return w.rtype(u.Elem())
		case *types.Array:
			return w.rtype(u.Elem())
		case *types.Map:
			return w.rtype(u.Elem())
		case *types.Chan:
			return w.rtype(u.Elem())
		}
		w.reflPanic("Elem of invalid type " + t.String())
	case "Key":
		return w.rtype(t.Underlying().(*types.Map).Key())
	case "Len":
		return vint(int(t.Underlying().(*types.Array).Len()))
	case "NumField":
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			w.reflPanic("NumField of non-struct type " + t.String())
		}
		return vint(s.NumFields())
	case "Field":
		i := int(w.conc(a[0]).N)
		return w.structField(t.Underlying().(*types.Struct), i, []int{i})
	case "FieldByName":
		f, ok := w.fieldByName(t, w.str(a[0]))
		if !ok {
			f = w.zero(w.sh.pkgs["reflect"].Type("StructField").Type())
		}
		return tup(f, vbool(ok))
	case "FieldByIndex":
		var idx []int
		for _, x := range sliceOf(a[0]) {
			idx = append(idx, int(x.N))
		}
		ct := t
		for _, i := range idx[:len(idx)-1] {
			ct = deref(ct.Underlying().(*types.Struct).Field(i).Type())
		}
		return w.structField(ct.Underlying().(*types.Struct), idx[len(idx)-1], idx)
	case "Implements":
		it := w.rtOf(a[0]).t.Underlying().(*types.Interface)
		return vbool(types.Implements(t, it))
	case "AssignableTo":
		return vbool(types.AssignableTo(t, w.rtOf(a[0]).t))
	case "ConvertibleTo":
		return vbool(types.ConvertibleTo(t, w.rtOf(a[0]).t))
	case "Comparable":
		return vbool(types.Comparable(t))
	case "NumMethod":
		if i, ok := t.Underlying().(*types.Interface); ok {
			return vint(i.NumMethods())
		}
		return vint(len(w.methods(t)))
	case "Size":
		return vint(int(w.sizes.Sizeof(t)))
	case "Bits":
		return vint(int(w.sizes.Sizeof(t)) * 8)
	case "NumIn":
		return vint(t.Underlying().(*types.Signature).Params().Len())
	case "NumOut":
		return vint(t.Underlying().(*types.Signature).Results().Len())
	case "In":
		return w.rtype(t.Underlying().(*types.Signature).Params().At(int(a[0].N)).Type())
	case "Out":
		return w.rtype(t.Underlying().(*types.Signature).Results().At(int(a[0].N)).Type())
	case "IsVariadic":
		return vbool(t.Underlying().(*types.Signature).Variadic())
	}
	panic(unsupported("reflect.Type." + name))
}

func registerReflect(m map[string]intrinsicFn) {
	m["reflect.TypeOf"] = func(w *Worker, fr *frame, a []Value) Value {
		i, _ := a[0].P.(*Iface)
		if i == nil {
			return Value{}
		}
		return w.rtype(i.t)
	}
	m["reflect.ValueOf"] = func(w *Worker, fr *frame, a []Value) Value { return w.valueOf(a[0]) }
	ptrTo := func(w *Worker, fr *frame, a []Value) Value { return w.rtype(types.NewPointer(w.rtOf(a[0]).t)) }
	m["reflect.PtrTo"] = ptrTo
	m["reflect.PointerTo"] = ptrTo
	m["reflect.SliceOf"] = func(w *Worker, fr *frame, a []Value) Value { return w.rtype(types.NewSlice(w.rtOf(a[0]).t)) }
	m["reflect.MapOf"] = func(w *Worker, fr *frame, a []Value) Value {
		return w.rtype(types.NewMap(w.rtOf(a[0]).t, w.rtOf(a[1]).t))
	}
	m["reflect.New"] = func(w *Worker, fr *frame, a []Value) Value {
		t := w.rtOf(a[0]).t
		p := new(Value)
		*p = w.zero(t)
		return mkRVal(&RVal{t: w.canon(types.NewPointer(t)), v: Value{P: p}})
	}
	m["reflect.NewAt"] = func(w *Worker, fr *frame, a []Value) Value {
		return mkRVal(&RVal{t: w.canon(types.NewPointer(w.rtOf(a[0]).t)), v: a[1]})
	}
	m["reflect.Zero"] = func(w *Worker, fr *frame, a []Value) Value {
		t := w.rtOf(a[0]).t
		return mkRVal(&RVal{t: t, v: w.zero(t)})
	}
	elem := func(w *Worker, r *RVal) Value {
		if r == nil {
			w.reflPanic("call of Elem on zero Value")
		}
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			pv := r.get()
			if pv.P == nil {
				return Value{}
			}
			return mkRVal(&RVal{t: w.canon(u.Elem()), addr: w.ptr(pv), ro: r.ro})
		case *types.Interface:
			return w.valueOf(r.get())
		}
		w.reflPanic("call of Elem on " + r.t.String() + " Value")
		return Value{}
	}
	m["reflect.Indirect"] = func(w *Worker, fr *frame, a []Value) Value {
		r := w.rval(a[0])
		if r == nil {
			return a[0]
		}
		if _, ok := r.t.Underlying().(*types.Pointer); ok {
			return elem(w, r)
		}
		return a[0]
	}
	m["reflect.MakeSlice"] = func(w *Worker, fr *frame, a []Value) Value {
		t := w.rtOf(a[0]).t
		return mkRVal(&RVal{t: t, v: Value{P: w.makeSlice(t.Underlying().(*types.Slice).Elem(), int(a[1].N), int(a[2].N))}})
	}
	m["reflect.MakeMap"] = func(w *Worker, fr *frame, a []Value) Value {
		t := w.rtOf(a[0]).t
		return mkRVal(&RVal{t: t, v: Value{P: newMap(t.Underlying().(*types.Map).Key())}})
	}
	m["reflect.DeepEqual"] = func(w *Worker, fr *frame, a []Value) Value {
		x, _ := a[0].P.(*Iface)
		y, _ := a[1].P.(*Iface)
		if x == nil || y == nil {
			return vbool(x == y)
		}
		if x.t != y.t {
			return Value{}
		}
		return w.deepEq(x.t, x.v, y.v, 0)
	}
	swapper := func(w *Worker, fr *frame, a []Value) Value {
		i, _ := a[0].P.(*Iface)
		if i == nil {
			w.reflPanic("Swapper of nil")
		}
		if _, ok := i.t.Underlying().(*types.Slice); !ok {
			w.reflPanic("call of Swapper on " + i.t.String() + " Value")
		}
		s := sliceOf(i.v)
		return Value{P: &Closure{nat: func(w *Worker, args []Value) Value {
			x, y := int(w.conc(args[0]).N), int(w.conc(args[1]).N)
			if x < 0 || y < 0 || x >= len(s) || y >= len(s) {
				w.reflPanic("slice index out of range")
			}
			p, q := copyVal(s[x]), copyVal(s[y])
			w.store(&s[x], q)
			w.store(&s[y], p)
			return Value{}
		}}}
	}
	m["internal/reflectlite.Swapper"] = swapper
	m["reflect.Swapper"] = swapper
	m["internal/reflectlite.TypeOf"] = m["reflect.TypeOf"]
	m["internal/reflectlite.ValueOf"] = m["reflect.ValueOf"]
	m["reflect.ValueError.Error"] = func(w *Worker, fr *frame, a []Value) Value { return vstr("reflect: value error") }

	for _, pk := range []string{"reflect", "internal/reflectlite"} {
		def := func(n string, f func(w *Worker, r *RVal, a []Value) Value) {
			m["("+pk+".Value)."+n] = func(w *Worker, fr *frame, a []Value) Value { return f(w, w.rval(a[0]), a[1:]) }
		}
		def("IsValid", func(w *Worker, r *RVal, a []Value) Value { return vbool(r != nil) })
		def("Kind", func(w *Worker, r *RVal, a []Value) Value {
			if r == nil {
				return Value{}
			}
			return vint(int(kindOf(r.t)))
		})
		def("Type", func(w *Worker, r *RVal, a []Value) Value {
			if r == nil {
				w.reflPanic("call of Type on zero Value")
			}
			return w.rtype(r.t)
		})
		def("Elem", func(w *Worker, r *RVal, a []Value) Value { return elem(w, r) })
		def("CanAddr", func(w *Worker, r *RVal, a []Value) Value { return vbool(r != nil && r.addr != nil) })
		def("CanSet", func(w *Worker, r *RVal, a []Value) Value { return vbool(r != nil && r.addr != nil && !r.ro) })
		def("CanInterface", func(w *Worker, r *RVal, a []Value) Value { return vbool(r != nil && !r.ro) })
		def("Addr", func(w *Worker, r *RVal, a []Value) Value {
			if r.addr == nil {
				w.reflPanic("Addr of unaddressable value")
			}
			return mkRVal(&RVal{t: w.canon(types.NewPointer(r.t)), v: Value{P: r.addr}})
		})
		def("UnsafeAddr", func(w *Worker, r *RVal, a []Value) Value {
			if r == nil || r.addr == nil {
				w.reflPanic("UnsafeAddr of unaddressable value")
			}
			return Value{P: r.addr}
		})
		def("UnsafePointer", func(w *Worker, r *RVal, a []Value) Value { return r.get() })
		def("Pointer", func(w *Worker, r *RVal, a []Value) Value { return r.get() })
		def("Interface", func(w *Worker, r *RVal, a []Value) Value {
			if r == nil {
				w.reflPanic("call of Interface on zero Value")
			}
			if r.ro {
				w.reflPanic("Interface: cannot return value obtained from unexported field or method")
			}
			if _, ok := r.t.Underlying().(*types.Interface); ok {
				return r.get()
			}
			return Value{P: &Iface{t: r.t, v: r.get()}}
		})
		def("IsNil", func(w *Worker, r *RVal, a []Value) Value {
			if r == nil {
				w.reflPanic("call of IsNil on zero Value")
			}
			switch kindOf(r.t) {
			case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer:
				return vbool(isNilV(r.get()))
			}
			w.reflPanic("call of IsNil on " + r.t.String() + " Value")
			return Value{}
		})
		def("IsZero", func(w *Worker, r *RVal, a []Value) Value { return w.isZero(r.t, r.get()) })
		def("Len", func(w *Worker, r *RVal, a []Value) Value {
			return w.builtin(nil, "len", []Value{r.get()}, []types.Type{r.t}, nil)
		})
		def("Cap", func(w *Worker, r *RVal, a []Value) Value {
			return w.builtin(nil, "cap", []Value{r.get()}, []types.Type{r.t}, nil)
		})
		def("Index", func(w *Worker, r *RVal, a []Value) Value {
			i := int(int64(w.conc(a[0]).N))
			switch u := r.t.Underlying().(type) {
			case *types.Slice:
				s := sliceOf(r.get())
				if i < 0 || i >= len(s) {
					w.reflPanic("slice index out of range")
				}
				return mkRVal(&RVal{t: w.canon(u.Elem()), addr: &s[i]})
			case *types.Array:
				if r.addr != nil {
					return mkRVal(&RVal{t: w.canon(u.Elem()), addr: &r.addr.P.(*Agg).f[i]})
				}
				return mkRVal(&RVal{t: w.canon(u.Elem()), v: r.v.P.(*Agg).f[i]})
			}
			return mkRVal(&RVal{t: w.canon(types.Typ[types.Uint8]), v: strIdx(r.get(), i)})
		})
		field := func(w *Worker, r *RVal, i int) *RVal {
			st, ok := r.t.Underlying().(*types.Struct)
			if !ok {
				w.reflPanic("call of Field on " + r.t.String() + " Value")
			}
			f := st.Field(i)
			n := &RVal{t: w.canon(f.Type()), ro: r.ro || !f.Exported()}
			if r.addr != nil {
				n.addr = &r.addr.P.(*Agg).f[i]
			} else {
				n.v = r.v.P.(*Agg).f[i]
			}
			return n
		}
		def("Field", func(w *Worker, r *RVal, a []Value) Value { return mkRVal(field(w, r, int(w.conc(a[0]).N))) })
		def("NumField", func(w *Worker, r *RVal, a []Value) Value { return vint(r.t.Underlying().(*types.Struct).NumFields()) })
		byIndex := func(w *Worker, r *RVal, idx []int) Value {
			for k, i := range idx {
				if k > 0 {
					if _, ok := r.t.Underlying().(*types.Pointer); ok {
						e := w.rval(elem(w, r))
						if e == nil {
							w.reflPanic("indirection through nil pointer to embedded struct")
						}
						r = e
					}
				}
				r = field(w, r, i)
			}
			return mkRVal(r)
		}
		def("FieldByIndex", func(w *Worker, r *RVal, a []Value) Value {
			var idx []int
			for _, x := range sliceOf(a[0]) {
				idx = append(idx, int(x.N))
			}
			return byIndex(w, r, idx)
		})
		def("FieldByName", func(w *Worker, r *RVal, a []Value) Value {
			f, ok := w.fieldByName(r.t, w.str(a[0]))
			if !ok {
				return Value{}
			}
			var idx []int
			for _, x := range f.P.(*Agg).f[5].P.([]Value) {
				idx = append(idx, int(x.N))
			}
			return byIndex(w, r, idx)
		})
		def("Set", func(w *Worker, r *RVal, a []Value) Value {
			x := w.rval(a[0])
			if r.addr == nil || r.ro {
				w.reflPanic("Set using unaddressable or unexported value")
			}
			v := x.get()
			if _, ok := r.t.Underlying().(*types.Interface); ok {
				if _, isI := x.t.Underlying().(*types.Interface); !isI {
					v = Value{P: &Iface{t: x.t, v: v}}
				}
			}
			w.store(r.addr, v)
			return Value{}
		})
		set := func(w *Worker, r *RVal, a []Value) Value {
			if r.addr == nil || r.ro {
				w.reflPanic("Set using unaddressable or unexported value")
			}
			if wd, _, ok := intInfo(r.t); ok && wd > 0 {
				w.store(r.addr, w.convInt(a[0], 64, false, wd))
				return Value{}
			}
			w.store(r.addr, a[0])
			return Value{}
		}
		for _, n := range []string{"SetInt", "SetUint", "SetString", "SetBool", "SetFloat", "SetBytes"} {
			def(n, set)
		}
		def("SetLen", func(w *Worker, r *RVal, a []Value) Value {
			w.store(r.addr, Value{P: sliceOf(*r.addr)[:int(a[0].N)]})
			return Value{}
		})
		def("Int", func(w *Worker, r *RVal, a []Value) Value {
			wd, s, ok := intInfo(r.t)
			if !ok || !s {
				w.reflPanic("call of Int on " + r.t.String() + " Value")
			}
			return w.convInt(r.get(), wd, true, 64)
		})
		def("Uint", func(w *Worker, r *RVal, a []Value) Value {
			wd, s, ok := intInfo(r.t)
			if !ok || s {
				w.reflPanic("call of Uint on " + r.t.String() + " Value")
			}
			return w.convInt(r.get(), wd, false, 64)
		})
		def("Bool", func(w *Worker, r *RVal, a []Value) Value { return r.get() })
		def("Float", func(w *Worker, r *RVal, a []Value) Value { return r.get() })
		def("Bytes", func(w *Worker, r *RVal, a []Value) Value { return r.get() })
		def("String", func(w *Worker, r *RVal, a []Value) Value {
			if r == nil {
				return vstr("<invalid Value>")
			}
			if isString(r.t) {
				return r.get()
			}
			return vstr("<" + typeString(r.t) + " Value>")
		})
		def("NumMethod", func(w *Worker, r *RVal, a []Value) Value {
			if r == nil {
				w.reflPanic("call of NumMethod on zero Value")
			}
			return vint(len(w.methods(r.t)))
		})
		def("MethodByName", func(w *Worker, r *RVal, a []Value) Value {
			name := w.str(a[0])
			for _, s := range w.methods(r.t) {
				if s.Obj().Name() == name {
					f := w.prog.MethodValue(s)
					recv := r.get()
					c := &Closure{nat: func(w *Worker, args []Value) Value {
						return w.callSSA(f, append([]Value{recv}, args...), nil, nil)
					}}
					sig := f.Signature
					bare := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
					return mkRVal(&RVal{t: w.canon(bare), v: Value{P: c}})
				}
			}
			return Value{}
		})
		def("Call", func(w *Worker, r *RVal, a []Value) Value {
			c, _ := r.get().P.(*Closure)
			if c == nil {
				w.nilDeref()
			}
			sig := r.t.Underlying().(*types.Signature)
			var args []Value
			for i, x := range sliceOf(a[0]) {
				xv := w.rval(x)
				v := xv.get()
				if i < sig.Params().Len() {
					if _, ok := sig.Params().At(i).Type().Underlying().(*types.Interface); ok {
						if _, isI := xv.t.Underlying().(*types.Interface); !isI {
							v = Value{P: &Iface{t: xv.t, v: v}}
						}
					}
				}
				args = append(args, v)
			}
			res := w.callClosure(c, args, nil)
			var out []Value
			switch n := sig.Results().Len(); n {
			case 0:
			case 1:
				out = append(out, mkRVal(&RVal{t: w.canon(sig.Results().At(0).Type()), v: res}))
			default:
				for i, x := range res.P.(Tuple) {
					out = append(out, mkRVal(&RVal{t: w.canon(sig.Results().At(i).Type()), v: x}))
				}
			}
			return Value{P: out}
		})
		def("Convert", func(w *Worker, r *RVal, a []Value) Value {
			t := w.rtOf(a[0]).t
			if it, ok := t.Underlying().(*types.Interface); ok {
				_ = it
				return mkRVal(&RVal{t: t, v: Value{P: &Iface{t: r.t, v: r.get()}}})
			}
			return mkRVal(&RVal{t: t, v: w.convert(r.get(), r.t, t)})
		})
		def("Comparable", func(w *Worker, r *RVal, a []Value) Value { return vbool(r == nil || types.Comparable(r.t)) })
		def("CanConvert", func(w *Worker, r *RVal, a []Value) Value { return vbool(types.ConvertibleTo(r.t, w.rtOf(a[0]).t)) })
		def("CanInt", func(w *Worker, r *RVal, a []Value) Value {
			wd, s, ok := intInfo(r.t)
			return vbool(ok && s && wd > 0)
		})
		def("CanUint", func(w *Worker, r *RVal, a []Value) Value {
			wd, s, ok := intInfo(r.t)
			return vbool(ok && !s && wd > 0)
		})
		def("CanFloat", func(w *Worker, r *RVal, a []Value) Value { _, ok := isFloat(r.t); return vbool(ok) })
		def("MapKeys", func(w *Worker, r *RVal, a []Value) Value {
			mm, _ := r.get().P.(*Map)
			var out []Value
			if mm != nil {
				for _, e := range mm.ents {
					if e.live {
						out = append(out, mkRVal(&RVal{t: w.canon(r.t.Underlying().(*types.Map).Key()), v: e.k}))
					}
				}
			}
			return Value{P: out}
		})
		def("MapRange", func(w *Worker, r *RVal, a []Value) Value {
			mm, _ := r.get().P.(*Map)
			it := &reflMapIter{m: mm, i: -1, t: r.t.Underlying().(*types.Map)}
			if mm != nil {
				for i, e := range mm.ents {
					if e.live {
						it.keys = append(it.keys, i)
					}
				}
			}
			return Value{P: it}
		})
		def("MapIndex", func(w *Worker, r *RVal, a []Value) Value {
			mm, _ := r.get().P.(*Map)
			i := w.mapFind(mm, w.rval(a[0]).get())
			if i < 0 {
				return Value{}
			}
			return mkRVal(&RVal{t: w.canon(r.t.Underlying().(*types.Map).Elem()), v: mm.ents[i].v})
		})
		def("Slice", func(w *Worker, r *RVal, a []Value) Value {
			lo, hi := int(w.conc(a[0]).N), int(w.conc(a[1]).N)
			v := r.get()
			if isString(r.t) {
				return mkRVal(&RVal{t: r.t, v: strSlice(v, lo, hi)})
			}
			return mkRVal(&RVal{t: r.t, v: Value{P: sliceOf(v)[lo:hi]}})
		})
	}
	m["(*reflect.MapIter).Next"] = func(w *Worker, fr *frame, a []Value) Value {
		it := a[0].P.(*reflMapIter)
		it.i++
		return vbool(it.i < len(it.keys))
	}
	m["(*reflect.MapIter).Key"] = func(w *Worker, fr *frame, a []Value) Value {
		it := a[0].P.(*reflMapIter)
		return mkRVal(&RVal{t: w.canon(it.t.Key()), v: it.m.ents[it.keys[it.i]].k})
	}
	m["(*reflect.MapIter).Value"] = func(w *Worker, fr *frame, a []Value) Value {
		it := a[0].P.(*reflMapIter)
		return mkRVal(&RVal{t: w.canon(it.t.Elem()), v: it.m.ents[it.keys[it.i]].v})
	}
	m["reflect.Append"] = func(w *Worker, fr *frame, a []Value) Value {
		r := w.rval(a[0])
		var add []Value
		for _, x := range sliceOf(a[1]) {
			add = append(add, w.rval(x).get())
		}
		return mkRVal(&RVal{t: r.t, v: w.appendSlice(r.get(), add, r.t.Underlying().(*types.Slice).Elem())})
	}
}

func (w *Worker) isZero(t types.Type, v Value) Value {
	if wd, _, ok := intInfo(t); ok {
		if v.P != nil && symOf(v) == nil {
			return Value{}
		}
		return vterm(w.tc.Eq(w.term(v, wd), w.tc.Const(wd, 0)))
	}
	if isString(t) {
		return vbool(strLen(v) == 0)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a, ok := v.P.(*Agg)
		if !ok {
			return vbool(v.P == nil)
		}
		r := w.tc.t
		for i := range a.f {
			r = w.tc.And(r, w.term(w.isZero(u.Field(i).Type(), a.f[i]), 0))
		}
		return vterm(r)
	case *types.Array:
		r := w.tc.t
		for _, x := range v.P.(*Agg).f {
			r = w.tc.And(r, w.term(w.isZero(u.Elem(), x), 0))
		}
		return vterm(r)
	case *types.Basic:
		return vbool(v.N == 0)
	}
	return vbool(isNilV(v))
}

// deepEq is reflect.DeepEqual without forking where possible.
func (w *Worker) deepEq(t types.Type, a, b Value, d int) Value {
	if d > 200 {
		panic(unsupported("deep equality of deep value"))
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if a.P == nil || b.P == nil {
			return vbool(a.P == nil && b.P == nil)
		}
		if a.P == b.P {
			return Value{N: 1}
		}
		return w.deepEq(u.Elem(), *w.ptr(a), *w.ptr(b), d+1)
	case *types.Slice:
		x, y := sliceOf(a), sliceOf(b)
		if (a.P == nil) != (b.P == nil) || len(x) != len(y) {
			return Value{}
		}
		r := w.tc.t
		for i := range x {
			r = w.tc.And(r, w.term(w.deepEq(u.Elem(), x[i], y[i], d+1), 0))
		}
		return vterm(r)
	case *types.Struct:
		r := w.tc.t
		x, y := a.P.(*Agg), b.P.(*Agg)
		for i := range x.f {
			r = w.tc.And(r, w.term(w.deepEq(u.Field(i).Type(), x.f[i], y.f[i], d+1), 0))
		}
		return vterm(r)
	case *types.Interface:
		x, _ := a.P.(*Iface)
		y, _ := b.P.(*Iface)
		if x == nil || y == nil {
			return vbool(x == nil && y == nil)
		}
		if x.t != y.t {
			return Value{}
		}
		return w.deepEq(x.t, x.v, y.v, d+1)
	case *types.Map, *types.Signature:
		return vbool(isNilV(a) && isNilV(b) || a.P == b.P)
	}
	return w.eqVal(t, a, b)
}

// reflMapIter stands for *reflect.MapIter.
type reflMapIter struct {
	m    *Map
	t    *types.Map
	keys []int
	i    int
}
