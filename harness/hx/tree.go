package hx

import (
	"github.com/wenerme/go-miniquery/miniquery"
	"github.com/wenerme/go-miniquery/zzverif/sx"
)

// ---- public view of a tree

func isCompareOp(s string) bool {
	switch s {
	case "eq", "neq", "gt", "gte", "lt", "lte", "like", "not like", "in", "not in":
		return true
	}
	return false
}

func isMatchOp(s string) bool {
	switch s {
	case "is null", "is not null", "is true", "is false", "is not true", "is not false":
		return true
	}
	return false
}

// complete tells what is wrong with a tree; "" if every node has exactly the
// operands of its kind.
func complete(n *miniquery.Node) string {
	if n == nil {
		return "missing operand"
	}
	var left, op, right, expr, params, arr bool
	switch n.Type {
	case miniquery.ValueNodeType:
		switch n.ValueType {
		case miniquery.IntValueType, miniquery.StringValueType, miniquery.BooleanValueType, miniquery.NullValueType:
		case miniquery.ArrayValueType:
			arr = true
			for _, e := range n.Array {
				if m := complete(e); m != "" {
					return m
				}
				if e.Type != miniquery.ValueNodeType {
					return "list element is not a literal"
				}
			}
		default:
			return "literal without a value"
		}
	case miniquery.IdentifierNodeType:
		if n.Name == "" {
			return "empty name"
		}
	case miniquery.ReferenceNodeType, miniquery.JsonReferenceNodeType:
		if len(n.Names) < 2 {
			return "short reference"
		}
		for _, s := range n.Names {
			if s == "" {
				return "empty name in reference"
			}
		}
	case miniquery.PredicatesExpressionType:
		left, op = true, true
		if n.Op == nil || !isMatchOp(n.Op.Operation) {
			return "predicate operator"
		}
	case miniquery.CompareExpressionType:
		left, op, right = true, true, true
		if n.Op == nil || !isCompareOp(n.Op.Operation) {
			return "compare operator"
		}
	case miniquery.LogicExpressionType:
		left, op, right = true, true, true
		if n.Op == nil || (n.Op.Operation != "and" && n.Op.Operation != "or") {
			return "logic operator"
		}
	case miniquery.ParenthesesExpressionType, miniquery.NotExpressionType:
		expr = true
	case miniquery.BetweenExpressionType:
		left, op, params = true, true, true
		if n.Op == nil || (n.Op.Operation != "between" && n.Op.Operation != "not between") {
			return "between operator"
		}
		if len(n.Params) != 2 {
			return "between bounds"
		}
	case miniquery.FunctionExpressionType:
		params = true
		if n.Name == "" {
			return "function without name"
		}
	default:
		return "unknown kind of node"
	}
	if left != (n.Left != nil) || right != (n.Right != nil) || op != (n.Op != nil) || expr != (n.Expression != nil) {
		return "operands do not match the kind of node"
	}
	if !params && len(n.Params) != 0 || !arr && len(n.Array) != 0 {
		return "list on a node without list"
	}
	if op && n.Op.Type != miniquery.OperationNodeType {
		return "operator node"
	}
	if left {
		if m := complete(n.Left); m != "" {
			return m
		}
	}
	if right {
		if m := complete(n.Right); m != "" {
			return m
		}
	}
	if expr {
		if m := complete(n.Expression); m != "" {
			return m
		}
	}
	for _, e := range n.Params {
		if m := complete(e); m != "" {
			return m
		}
	}
	return ""
}

// rn is the tree of the reference parser.
type rn struct {
	k     string // int str bool null arr id ref json func paren not logic cmp between pred
	op    string
	s     string
	n     int
	b     bool
	names []string
	kids  []*rn
}

// toRn converts a parsed tree; nil on an unknown node.
func toRn(n *miniquery.Node) *rn {
	all := func(ns []*miniquery.Node) (r []*rn) {
		for _, e := range ns {
			r = append(r, toRn(e))
		}
		return
	}
	switch n.Type {
	case miniquery.ValueNodeType:
		switch n.ValueType {
		case miniquery.IntValueType:
			return &rn{k: "int", n: n.Int}
		case miniquery.StringValueType:
			return &rn{k: "str", s: n.Str}
		case miniquery.BooleanValueType:
			return &rn{k: "bool", b: n.Bool}
		case miniquery.NullValueType:
			return &rn{k: "null"}
		case miniquery.ArrayValueType:
			return &rn{k: "arr", kids: all(n.Array)}
		}
	case miniquery.IdentifierNodeType:
		return &rn{k: "id", s: n.Name}
	case miniquery.ReferenceNodeType:
		return &rn{k: "ref", names: n.Names}
	case miniquery.JsonReferenceNodeType:
		return &rn{k: "json", names: n.Names}
	case miniquery.PredicatesExpressionType:
		return &rn{k: "pred", op: n.Op.Operation, kids: []*rn{toRn(n.Left)}}
	case miniquery.CompareExpressionType:
		return &rn{k: "cmp", op: n.Op.Operation, kids: []*rn{toRn(n.Left), toRn(n.Right)}}
	case miniquery.LogicExpressionType:
		return &rn{k: "logic", op: n.Op.Operation, kids: []*rn{toRn(n.Left), toRn(n.Right)}}
	case miniquery.ParenthesesExpressionType:
		return &rn{k: "paren", kids: []*rn{toRn(n.Expression)}}
	case miniquery.NotExpressionType:
		return &rn{k: "not", kids: []*rn{toRn(n.Expression)}}
	case miniquery.BetweenExpressionType:
		return &rn{k: "between", op: n.Op.Operation, kids: append([]*rn{toRn(n.Left)}, all(n.Params)...)}
	case miniquery.FunctionExpressionType:
		return &rn{k: "func", s: n.Name, kids: all(n.Params)}
	}
	return &rn{k: "unknown"}
}

// same compares two trees. flat ignores how a chain of and/or is grouped.
// The result does not fork: it is one condition over the symbolic content.
func same(a, b *rn, flat bool) bool {
	if flat && a.k == "logic" && b.k == "logic" {
		ta, oa := flatten(a, nil, nil)
		tb, ob := flatten(b, nil, nil)
		if len(ta) != len(tb) {
			return false
		}
		r := true
		for i := range oa {
			if oa[i] != ob[i] {
				return false
			}
		}
		for i := range ta {
			r = sx.And(r, same(ta[i], tb[i], flat))
		}
		return r
	}
	if a.k != b.k || len(a.kids) != len(b.kids) || len(a.names) != len(b.names) || a.op != b.op {
		return false
	}
	r := sx.And(sx.And(sx.StrEq(a.s, b.s), a.n == b.n), a.b == b.b)
	for i := range a.names {
		r = sx.And(r, sx.StrEq(a.names[i], b.names[i]))
	}
	for i := range a.kids {
		r = sx.And(r, same(a.kids[i], b.kids[i], flat))
	}
	return r
}

func flatten(n *rn, ts []*rn, ops []string) ([]*rn, []string) {
	if n.k != "logic" {
		return append(ts, n), ops
	}
	ts, ops = flatten(n.kids[0], ts, ops)
	ops = append(ops, n.op)
	return flatten(n.kids[1], ts, ops)
}

// show is a short text of a tree for observations (kinds and operators only).
func (n *rn) show() string {
	s := n.k
	if n.op != "" {
		s += ":" + n.op
	}
	if len(n.kids) > 0 {
		s += "("
		for i, k := range n.kids {
			if i > 0 {
				s += ","
			}
			s += k.show()
		}
		s += ")"
	}
	return s
}
