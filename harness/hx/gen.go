package hx

import "github.com/wenerme/go-miniquery/zzverif/sx"

// gen derives sentences of the grammar. Every choice point has a default (the
// simplest derivation); left bounds how many choice points may deviate from
// it, which bounds the set of shapes. Leaves carry symbolic content.
type gen struct {
	left   int
	id     int
	funcs  []string
	names  []string
	noArr  bool // no list outside of in
	noRef  bool
	noFn   bool
	refs   []string // dotted names
	noJSON bool
	lits   []*rn // literals in source order
	noStr  bool
	oneArg bool                               // functions take one argument
	edges  map[string][]struct{ n, t string } // edges of a table and where they lead
	table  string
}

func (g *gen) pick(n int) int {
	if g.left <= 0 {
		return 0
	}
	c := sx.Choice(n)
	if c > 0 {
		g.left--
	}
	return c
}

func (g *gen) name() string {
	ns := g.names
	if ns == nil {
		ns = []string{"a", "b", "c", "d"}
	}
	s := ns[g.id%len(ns)]
	g.id++
	return s
}

func (g *gen) lit(n *rn) { g.lits = append(g.lits, n) }

// integer is a one digit literal with any value 1..9.
func (g *gen) integer() string {
	b := sx.Byte()
	sx.Assume(sx.And(b >= '1', b <= '9'))
	g.lit(&rn{k: "int", n: int(b - '0')})
	return string([]byte{b})
}

// str is a one character literal in the given quotes, any ASCII content.
func (g *gen) str(q string) string {
	b := sx.Byte()
	sx.Assume(sx.And(b < 0x80, b != q[0]))
	g.lit(&rn{k: "str", s: string([]byte{b})})
	return q + string([]byte{b}) + q
}

// literal picks a scalar literal.
func (g *gen) literal() string {
	switch g.pick(5) {
	case 1:
		if !g.noStr {
			return g.str("'")
		}
	case 2:
		g.lit(&rn{k: "null"})
		return "null"
	case 3:
		g.lit(&rn{k: "bool", b: true})
		return "true"
	case 4:
		g.lit(&rn{k: "int"})
		return "0"
	}
	return g.integer()
}

func (g *gen) list(open, cl string) string {
	switch g.pick(5) {
	case 1:
		s := open + g.literal() + ", "
		return s + g.literal() + cl
	case 2:
		g.lit(&rn{k: "empty"})
		return open + cl
	case 3:
		return open + g.literal() + "," + cl
	case 4:
		s := open + g.literal() + ","
		s += g.literal() + ","
		return s + g.literal() + cl
	}
	return open + g.literal() + cl
}

// operand derives PrimaryExpression.
func (g *gen) operand() string {
	switch g.pick(10) {
	case 1:
		return g.literal()
	case 2:
		return "(" + g.expr() + ")"
	case 3:
		if g.noFn {
			return g.name()
		}
		return g.fn()
	case 4:
		if g.refs != nil {
			return g.refs[g.pick(len(g.refs))]
		}
		if !g.noRef {
			return g.name() + "." + g.name()
		}
	case 5:
		if !g.noRef && !g.noJSON {
			return g.name() + "->" + g.name()
		}
	case 6:
		if !g.noStr {
			return g.str("\"")
		}
	case 7:
		if !g.noArr {
			return g.list("[", "]")
		}
	case 8:
		g.lit(&rn{k: "bool"})
		return "false"
	case 9:
		g.lit(&rn{k: "null"})
		return "null"
	}
	return g.name()
}

func (g *gen) fn() string {
	if g.edges != nil {
		switch c := g.pick(3); c {
		case 1, 2:
			es := g.edges[g.table]
			e := es[g.pick(len(es))]
			if c == 2 {
				return "has_edge(" + e.n + ")"
			}
			t := g.table
			g.table = e.t
			s := "has_edge(" + e.n + ", " + g.edgeCond() + ")"
			g.table = t
			return s
		}
	}
	if g.oneArg {
		return "date(" + g.expr() + ")"
	}
	f := "f"
	if g.funcs != nil {
		f = g.funcs[g.pick(len(g.funcs))]
	}
	switch g.pick(4) {
	case 1:
		return f + "()"
	case 2:
		s := f + "(" + g.expr() + ", "
		return s + g.expr() + ")"
	case 3:
		return f + "(" + g.expr() + ",)"
	}
	return f + "(" + g.expr() + ")"
}

var cmpOps = []string{"=", ">", ">=", "<", "<=", "!=", "<>", "==", "gte", "lte", "gt", "lt", "eq", "neq", "like", "not like"}
var matchOps = []string{"is null", "is not null", "is true", "is false", "is not true", "is not false", "isnull", "notnull"}

// cond derives CompareExpression.
func (g *gen) cond() string {
	l := g.operand()
	switch g.pick(8) {
	case 1:
		op := cmpOps[g.pick(len(cmpOps))]
		return l + " " + op + " " + g.operand()
	case 2:
		return l + " in " + g.list("[", "]")
	case 3:
		return l + " not in " + g.list("(", ")")
	case 4:
		l += " between " + g.literal()
		return l + " and " + g.literal()
	case 5:
		l += " not between " + g.literal()
		return l + " and " + g.literal()
	case 6:
		return l + " " + matchOps[g.pick(len(matchOps))]
	case 7: // chain of two comparisons
		l += " " + cmpOps[g.pick(len(cmpOps))] + " " + g.cond()
		return l + " = " + g.operand()
	}
	return l + " = " + g.operand()
}

func (g *gen) term() string {
	switch g.pick(3) {
	case 1:
		return "not " + g.cond()
	case 2:
		return g.operand()
	}
	return g.cond()
}

func (g *gen) expr() string {
	s := g.term()
	for n := g.pick(3); n > 0; n-- {
		s += []string{" and ", " or ", " && ", " || "}[g.pick(4)]
		s += g.term()
	}
	return s
}

// edgeCond is a condition of an edge: anything but a bare name or literal.
func (g *gen) edgeCond() string {
	s := g.cond()
	for n := g.pick(3); n > 0; n-- {
		s += []string{" and ", " or "}[g.pick(2)]
		s += g.term()
	}
	return s
}

// ---- free text

type skeleton struct{ pre, post string }

// skeletons are queries with a hole for arbitrary bytes.
var skeletons = []skeleton{
	{"a ", " 1"}, {"a = ", ""}, {"f(", ")"}, {"f(a", "b)"}, {"a in [", "]"}, {"a in (", ")"}, {"a in [1", "2]"},
	{"a between ", " and 2"}, {"a between 1", "2"}, {"a between [1", "2]"}, {"a ", ""}, {"not", "a"}, {"(", ")"},
	{"a.", ""}, {"a->", "b"}, {"a", "b"}, {"a is ", ""}, {"a is", "null"}, {"a is not ", ""}, {"a not ", " 1"}, {"a not", "in [1]"},
	{"'", "'"}, {"a=1 ", " b=2"}, {"a=1", "b=2"}, {"a = 1 --", "\n"}, {"a = 1 //", ""}, {"", " = 1"}, {"a = 1", ""}, {"a=b", "=c"},
	{"(a", ")"}, {"((a)", "b)"}, {"[", "]"}, {"\"", "\" = a"}, {"not a", "1"}, {"a i", "[1]"}, {"a lik", "'x'"}, {"a g", "1"}, {"a l", "1"}, {"a n", "1"},
	{"tru", ""}, {"nul", ""}, {"a an", " b"}, {"a o", " b"}, {"a = nu", ""}, {"a = 1", "nd b"}, {"a is nu", ""}, {"a bet", "1 and 2"},
}

// holeText is a skeleton with up to k arbitrary bytes in its hole.
func holeText(k int) string {
	sk := skeletons[sx.Choice(len(skeletons))]
	return sk.pre + sx.StrUpTo(k) + sk.post
}

// samples cover every word, operator and kind of literal of the grammar.
var samples = []string{
	"a is null", "a is not null", "a is true", "a is not true", "a is false", "a is not false", "a isnull", "a notnull",
	"a like 'x'", "a not like 'x'", "a in [1]", "a not in (1,2)", "a in []", "a between 1 and 2", "a not between 1 and 2", "a between [1,2]",
	"a and b", "a or b", "a && b", "a || b", "not a", "not (a)", "a = 1", "a == 1", "a != 1", "a <> 1", "a < 1", "a <= 1", "a > 1", "a >= 1",
	"a gt 1", "a gte 1", "a lt 1", "a lte 1", "a eq 1", "a neq 1", "true", "false", "TRUE", "FALSE", "null", "NULL", "f()", "f(a,1,)", "f((a),not b)",
	"a.b.c = 1", "a->b->c", "a = \"x\"", "a -- c\n", "a // c\r\n", "[1,'x',]", "((a))", "a1_b2 = 10",
}

// edited is a sample with up to d bytes at one position replaced by up to k others.
func edited(d, k int) string {
	s := samples[sx.Choice(len(samples))]
	i := sx.Choice(len(s) + 1)
	j := i + sx.Choice(d+1)
	sx.Assume(j <= len(s))
	return s[:i] + sx.StrUpTo(k) + s[j:]
}
