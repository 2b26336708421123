package hx

import (
	"context"

	"github.com/wenerme/go-miniquery/miniquery"
	"github.com/wenerme/go-miniquery/zzverif/sx"
)

// ---- C27: reading a tree

func copyNode(n *miniquery.Node) *miniquery.Node {
	if n == nil {
		return nil
	}
	all := func(l []*miniquery.Node) (r []*miniquery.Node) {
		for _, e := range l {
			r = append(r, copyNode(e))
		}
		return
	}
	c := *n
	c.Names = append([]string(nil), n.Names...)
	c.Array, c.Params = all(n.Array), all(n.Params)
	c.Expression, c.Left, c.Op, c.Right = copyNode(n.Expression), copyNode(n.Left), copyNode(n.Op), copyNode(n.Right)
	return &c
}

func sameNode(a, b *miniquery.Node) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Type != b.Type || a.ValueType != b.ValueType || a.Operation != b.Operation || len(a.Names) != len(b.Names) || len(a.Array) != len(b.Array) || len(a.Params) != len(b.Params) {
		return false
	}
	r := sx.And(sx.And(a.Int == b.Int, a.Bool == b.Bool), sx.And(sx.StrEq(a.Str, b.Str), sx.StrEq(a.Name, b.Name)))
	for i := range a.Names {
		r = sx.And(r, sx.StrEq(a.Names[i], b.Names[i]))
	}
	for i := range a.Array {
		r = sx.And(r, sameNode(a.Array[i], b.Array[i]))
	}
	for i := range a.Params {
		r = sx.And(r, sameNode(a.Params[i], b.Params[i]))
	}
	for _, p := range [][2]*miniquery.Node{{a.Expression, b.Expression}, {a.Left, b.Left}, {a.Op, b.Op}, {a.Right, b.Right}} {
		r = sx.And(r, sameNode(p[0], p[1]))
	}
	return r
}

// isValue reports whether v is the Go value of a literal.
func isValue(v any, n *rn) bool {
	switch n.k {
	case "int":
		x, ok := v.(int)
		return ok && x == n.n
	case "str":
		x, ok := v.(string)
		return ok && sx.StrEq(x, n.s)
	case "bool":
		x, ok := v.(bool)
		return ok && x == n.b
	case "null":
		return v == nil
	case "arr":
		x, ok := v.([]interface{})
		if !ok || len(x) != len(n.kids) {
			return false
		}
		for i := range x {
			if !isValue(x[i], n.kids[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// values reads the values of all literals, and spoils the lists.
func values(n *miniquery.Node) {
	if n.Type == miniquery.ValueNodeType {
		v := n.Value()
		sx.Assert(n.IsValue(), "literal is not a value")
		sx.Assert(isValue(v, toRn(n)), "value differs from the literal")
		sx.Reach("value")
		if l, ok := v.([]interface{}); ok {
			for i := range l {
				l[i] = "spoiled"
			}
			_ = append(l, "spoiled")
			sx.Assert(isValue(n.Value(), toRn(n)), "value differs when read again")
		}
	}
	for _, c := range children(n) {
		values(c)
	}
}

func c27(q string) {
	n := parse(q)
	if n == nil {
		return
	}
	c := copyNode(n)
	s, d := miniquery.Build(n), n.String()
	values(n)
	sx.Assert(sameNode(n, c), "reading values changes the tree")
	sx.Assert(sx.StrEq(miniquery.Build(n), s), "printing again differs")
	sx.Assert(sx.StrEq(n.String(), d), "describing again differs")
	v := &miniquery.Visitor{}
	v.Init()
	for i := 0; i < 2; i++ {
		sx.Assert(v.Visit(context.Background(), n) == nil, "walking fails")
	}
	sx.Assert(sameNode(n, c), "printing or walking changes the tree")
	sx.Assert(sx.StrEq(miniquery.Build(c), s), "a copy prints differently")
	sx.Reach("read")
}

func C27_Edit() { c27(edited(sx.Param("D", 1), sx.Param("K", 1))) }

// C27_Gen: generated queries.
func C27_Gen() {
	g := &gen{left: sx.Param("B", 2)}
	c27(g.query())
}

// C27_Lit: one literal at every place.
func C27_Lit() {
	p := pickPos()
	t, _ := anyLit()
	c27(p.pre + t + p.post)
}
