package hx

import "github.com/wenerme/go-miniquery/zzverif/sx"

// ---- values and three-valued logic

// val is an SQL value: null, or a number that stands for the value. Strings
// are mapped to numbers, like and functions to fixed functions of numbers, so
// that a query and its translation agree for all numbers only if they apply
// the same operators to the same operands.
type val struct {
	null bool
	n    int
}

// t3 is a truth value: unknown, or true/false.
type t3 struct{ u, t bool }

func tv(v val) t3 { return t3{v.null, v.n != 0} }

func ofTv(a t3) val { return val{null: a.u, n: sx.IteInt(a.t, 1, 0)} }

func (a t3) isT() bool { return sx.And(!a.u, a.t) }
func (a t3) isF() bool { return sx.And(!a.u, !a.t) }

func mk3(t, f bool) t3 { return t3{sx.And(!t, !f), t} }

func and3(a, b t3) t3 { return mk3(sx.And(a.isT(), b.isT()), sx.Or(a.isF(), b.isF())) }
func or3(a, b t3) t3  { return not3(and3(not3(a), not3(b))) }
func not3(a t3) t3    { return t3{a.u, !a.t} }

func boolTv(b bool) t3 { return t3{t: b} }

// cmp3 applies a canonical comparison.
func cmp3(op string, l, r val) t3 {
	var b bool
	switch op {
	case "eq":
		b = l.n == r.n
	case "neq":
		b = l.n != r.n
	case "gt":
		b = l.n > r.n
	case "gte":
		b = l.n >= r.n
	case "lt":
		b = l.n < r.n
	case "lte":
		b = l.n <= r.n
	case "like":
		b = likeFn(l.n, r.n)
	case "not like":
		b = !likeFn(l.n, r.n)
	default:
		sx.Assert(false, "operator "+op)
	}
	return t3{sx.Or(l.null, r.null), b}
}

// likeFn stands for like: some relation that is neither symmetric nor
// constant.
func likeFn(l, r int) bool { return (l^(r<<1))&2 != 0 }

// callFn stands for a function of its arguments.
func callFn(args []val) val {
	v := val{n: 5}
	for _, a := range args {
		v.null = sx.Or(v.null, a.null)
		v.n = v.n<<1 ^ a.n
	}
	return v
}

func in3(l val, list []val) t3 {
	t := boolTv(false)
	for _, e := range list {
		t = or3(t, cmp3("eq", l, e))
	}
	return t
}

func isOp(op string, v val) t3 {
	t := tv(v)
	switch op {
	case "is null":
		return boolTv(v.null)
	case "is not null":
		return boolTv(!v.null)
	case "is true":
		return boolTv(t.isT())
	case "is false":
		return boolTv(t.isF())
	case "is not true":
		return boolTv(!t.isT())
	case "is not false":
		return boolTv(!t.isF())
	}
	sx.Assert(false, "operator "+op)
	return t3{}
}

// strVal is the number that stands for a string.
func strVal(s string) val {
	n := 1000
	for i := 0; i < len(s); i++ {
		n = n<<8 + int(s[i])
	}
	return val{n: n}
}

// env gives meaning to names.
type env interface {
	name(s string) val
	ref(names []string) val
	fn(name string, n *rn) val
}

// tri is a truth value as two flags. The reference meaning is computed with
// it; trees and SQL under test are evaluated with numbers (see evalT), so that
// the two sides only meet in the solver.
type tri struct{ t, f bool }

func triOf(v val) tri {
	return tri{sx.And(!v.null, v.n != 0), sx.And(!v.null, v.n == 0)}
}
func (a tri) and(b tri) tri { return tri{sx.And(a.t, b.t), sx.Or(a.f, b.f)} }
func (a tri) or(b tri) tri  { return tri{sx.Or(a.t, b.t), sx.And(a.f, b.f)} }
func (a tri) not() tri      { return tri{a.f, a.t} }
func (a tri) val() val      { return val{null: sx.And(!a.t, !a.f), n: sx.IteInt(a.t, 1, 0)} }

// is compares with a truth value of the other encoding.
func (a tri) is(b t3) bool {
	return sx.And(sx.And(a.t == b.isT(), a.f == b.isF()), sx.And(!a.t, !a.f) == b.u)
}

func (a tri) when(c bool) tri { return tri{sx.And(a.t, c), sx.And(a.f, c)} }

func triBool(b bool) tri { return tri{b, !b} }

func triCmp(op string, l, r val) tri {
	var b bool
	switch op {
	case "eq":
		b = l.n == r.n
	case "neq":
		b = !(l.n == r.n)
	case "gt":
		b = r.n < l.n
	case "gte":
		b = !(l.n < r.n)
	case "lt":
		b = l.n < r.n
	case "lte":
		b = !(r.n < l.n)
	case "like":
		b = likeFn(l.n, r.n)
	case "not like":
		b = !likeFn(l.n, r.n)
	default:
		sx.Assert(false, "operator "+op)
	}
	return triBool(b).when(sx.And(!l.null, !r.null))
}

// notBetweenAnd is set to evaluate queries with a known defect: "not between"
// demands that the value is below and above.
var notBetweenAnd bool

// evalQ is the documented meaning of a query tree. The tree has SQL grouping
// (see refParse).
func evalQ(n *rn, e env) tri { return triOf(evalV(n, e)) }

func evalV(n *rn, e env) val {
	switch n.k {
	case "paren":
		return evalV(n.kids[0], e)
	case "not":
		return evalQ(n.kids[0], e).not().val()
	case "logic":
		l, r := evalQ(n.kids[0], e), evalQ(n.kids[1], e)
		if n.op == "and" {
			return l.and(r).val()
		}
		return l.or(r).val()
	case "cmp":
		l := evalV(n.kids[0], e)
		if n.op == "in" || n.op == "not in" {
			t := triBool(false)
			for _, k := range n.kids[1].kids {
				t = t.or(triCmp("eq", l, evalV(k, e)))
			}
			if n.op == "not in" {
				t = t.not()
			}
			return t.val()
		}
		return triCmp(n.op, l, evalV(n.kids[1], e)).val()
	case "between":
		l, lo, hi := evalV(n.kids[0], e), evalV(n.kids[1], e), evalV(n.kids[2], e)
		if n.op == "not between" {
			if notBetweenAnd {
				return triCmp("lt", l, lo).and(triCmp("gt", l, hi)).val()
			}
			return triCmp("lt", l, lo).or(triCmp("gt", l, hi)).val()
		}
		return triCmp("gte", l, lo).and(triCmp("lte", l, hi)).val()
	case "pred":
		v := evalV(n.kids[0], e)
		t := triOf(v)
		switch n.op {
		case "is null":
			t = triBool(v.null)
		case "is not null":
			t = triBool(!v.null)
		case "is true":
			t = triBool(t.t)
		case "is false":
			t = triBool(t.f)
		case "is not true":
			t = triBool(!t.t)
		case "is not false":
			t = triBool(!t.f)
		default:
			sx.Assert(false, "operator "+n.op)
		}
		return t.val()
	case "func":
		return e.fn(n.s, n)
	}
	return leaf(n, e)
}

func leaf(n *rn, e env) val {
	switch n.k {
	case "int":
		return val{n: n.n}
	case "str":
		return strVal(n.s)
	case "bool":
		return val{n: sx.IteInt(n.b, 1, 0)}
	case "null":
		return val{null: true}
	case "id":
		return e.name(n.s)
	case "ref":
		return e.ref(n.names)
	case "json":
		return e.ref(append([]string{"->"}, n.names...))
	case "arr": // a list used as a value
		var list []val
		for _, k := range n.kids {
			list = append(list, leaf(k, e))
		}
		return callFn(list)
	}
	sx.Assert(false, "cannot evaluate "+n.k)
	return val{}
}

// evalT evaluates a tree under test.
func evalT(n *rn, e env) val {
	switch n.k {
	case "paren":
		return evalT(n.kids[0], e)
	case "not":
		return ofTv(not3(tv(evalT(n.kids[0], e))))
	case "logic":
		l, r := tv(evalT(n.kids[0], e)), tv(evalT(n.kids[1], e))
		if n.op == "and" {
			return ofTv(and3(l, r))
		}
		return ofTv(or3(l, r))
	case "cmp":
		l := evalT(n.kids[0], e)
		if n.op == "in" || n.op == "not in" {
			var list []val
			for _, k := range n.kids[1].kids {
				list = append(list, evalT(k, e))
			}
			t := in3(l, list)
			if n.op == "not in" {
				t = not3(t)
			}
			return ofTv(t)
		}
		return ofTv(cmp3(n.op, l, evalT(n.kids[1], e)))
	case "between":
		l, lo, hi := evalT(n.kids[0], e), evalT(n.kids[1], e), evalT(n.kids[2], e)
		t := and3(cmp3("gte", l, lo), cmp3("lte", l, hi))
		if n.op == "not between" {
			t = not3(t)
		}
		return ofTv(t)
	case "pred":
		return ofTv(isOp(n.op, evalT(n.kids[0], e)))
	case "func":
		return e.fn(n.s, n)
	}
	return leaf(n, e)
}

// row is an environment of symbolic columns, made on first use.
type row struct {
	names []string
	vals  []val
}

// newRow makes a row with any value, null included, in each column.
func newRow(names ...string) *row {
	r := &row{names: names}
	for range names {
		r.vals = append(r.vals, anyVal())
	}
	return r
}

func anyVal() val { return val{null: sx.Bool(), n: int(sx.Byte() & 15)} }

func (r *row) name(s string) val {
	for i, n := range r.names {
		if n == s {
			return r.vals[i]
		}
	}
	sx.Assert(false, "no column "+s)
	return val{}
}

func (r *row) ref(names []string) val {
	s := ""
	for i, n := range names {
		if i > 0 {
			s += "."
		}
		s += n
	}
	return r.name(s)
}

func (r *row) fn(name string, n *rn) val {
	var args []val
	for _, k := range n.kids {
		args = append(args, evalV(k, r))
	}
	return callFn(args)
}
