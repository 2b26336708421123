package hx

import (
	"context"
	"errors"

	"github.com/wenerme/go-miniquery/miniquery"
	"github.com/wenerme/go-miniquery/zzverif/sx"
)

// ---- C06

// chain writes a query and evaluates it from its construction, not from its
// text: terms joined by and/or with and before or, not over one condition,
// parentheses around a chain.
type chain struct {
	g     *gen
	e     *row
	nid   int
	whole bool // operands of and, or and not are conditions
}

func (c *chain) id() (string, *rn) {
	s := c.e.names[c.nid%len(c.e.names)]
	c.nid++
	return s, &rn{k: "id", s: s}
}

// operand is a name or a chain in parentheses.
func (c *chain) operand() (string, *rn) {
	if c.g.pick(2) == 1 {
		s, n := c.chain(2)
		return "(" + s + ")", &rn{k: "paren", kids: []*rn{n}}
	}
	return c.id()
}

func (c *chain) cond() (string, *rn) {
	s, n := c.operand()
	switch c.g.pick(7) {
	case 1:
		t, m := c.operand()
		return s + " = " + t, &rn{k: "cmp", op: "eq", kids: []*rn{n, m}}
	case 2:
		t, m := c.operand()
		return s + " < " + t, &rn{k: "cmp", op: "lt", kids: []*rn{n, m}}
	case 3: // equal strength groups to the left
		t, m := c.operand()
		u, o := c.operand()
		return s + " = " + t + " like " + u, &rn{k: "cmp", op: "like", kids: []*rn{{k: "cmp", op: "eq", kids: []*rn{n, m}}, o}}
	case 4:
		return s + " between 1 and 7", &rn{k: "between", op: "between", kids: []*rn{n, {k: "int", n: 1}, {k: "int", n: 7}}}
	case 5:
		return s + " is null", &rn{k: "pred", op: "is null", kids: []*rn{n}}
	case 6:
		return s + " not in [1,2]", &rn{k: "cmp", op: "not in", kids: []*rn{n, {k: "arr", kids: []*rn{{k: "int", n: 1}, {k: "int", n: 2}}}}}
	}
	if c.whole && n.k == "id" {
		return s + " = 1", &rn{k: "cmp", op: "eq", kids: []*rn{n, {k: "int", n: 1}}}
	}
	return s, n
}

func (c *chain) term() (string, *rn) {
	if c.g.pick(2) == 1 {
		s, n := c.cond()
		return "not " + s, &rn{k: "not", kids: []*rn{n}}
	}
	return c.cond()
}

// chain of 1..max terms.
func (c *chain) chain(max int) (string, *rn) {
	s, n := c.term()
	ts, ops := []*rn{n}, []string{}
	for i := sx.Choice(max); i > 0; i-- {
		o := sx.Choice(2) * 2
		if c.g.pick(2) == 1 {
			o++
		}
		s += []string{" and ", " && ", " or ", " || "}[o]
		ops = append(ops, []string{"and", "and", "or", "or"}[o])
		t, m := c.term()
		s += t
		ts = append(ts, m)
	}
	return s, groupLogic(ts, ops)
}

// C06_Chain: chains of up to N terms.
func C06_Chain() {
	e := newRow("a", "b", "c", "d", "e", "g")
	c := &chain{g: &gen{left: sx.Param("B", 2)}, e: e}
	s, want := c.chain(sx.Param("N", 4))
	n := parse(s)
	sx.Assert(n != nil, "chain rejected")
	t := toRn(n)
	sx.Obs(t.show())
	sx.Assert(evalQ(want, e).is(tv(evalT(t, e))), "query does not mean what SQL precedence says")
	sx.Assert(same(bare(t), bare(want), false), "operators do not group as in SQL")
}

// C06_Gen: chains and nesting of any kind.
func C06_Gen() {
	e := &anyRow{}
	g := &gen{left: sx.Param("B", 2), noArr: true, names: []string{"a", "b", "c"}}
	s := g.query()
	want, ok := refParse(s)
	sx.Assume(want != nil && ok)
	n := parse(s)
	sx.Assert(n != nil, "query rejected")
	t := toRn(n)
	sx.Obs(t.show())
	sx.Assert(evalQ(want, e).is(tv(evalT(t, e))), "query does not mean what SQL precedence says")
	sx.Assert(same(bare(t), bare(want), false), "operators do not group as in SQL")
}

// bare is n without its parentheses: the tree alone has the grouping.
func bare(n *rn) *rn {
	for n != nil && n.k == "paren" {
		n = n.kids[0]
	}
	if n == nil {
		return nil
	}
	m := *n
	m.kids = nil
	for _, k := range n.kids {
		m.kids = append(m.kids, bare(k))
	}
	return &m
}

// C06_Paren: redundant parentheses around any sub-expression of a generated
// query do not change its meaning.
func C06_Paren() {
	e := newRow("a", "b", "c", "d", "e", "g")
	c := &chain{g: &gen{left: sx.Param("B", 1)}, e: e}
	_, want := c.chain(sx.Param("N", 3))
	s := c.withParens(want, 0)
	n := parse(s)
	sx.Assert(n != nil, "query with parentheses rejected")
	sx.Obs(toRn(n).show())
	sx.Assert(evalQ(want, e).is(tv(evalT(toRn(n), e))), "parentheses change the meaning")
}

// withParens prints n with all parentheses that keep its meaning, each
// optionally doubled.
func (c *chain) withParens(n *rn, level int) string {
	s := ""
	switch n.k {
	case "id":
		s = n.s
	case "int":
		s = string([]byte{byte('0' + n.n)})
	case "paren":
		return c.withParens(n.kids[0], level)
	case "not":
		s = "not " + c.withParens(n.kids[0], level+1)
	case "logic":
		s = c.withParens(n.kids[0], level+1) + " " + n.op + " " + c.withParens(n.kids[1], level+1)
	case "cmp":
		if n.op == "not in" {
			s = c.withParens(n.kids[0], level+1) + " not in (1,2)"
			break
		}
		op := map[string]string{"eq": "=", "lt": "<", "like": "like"}[n.op]
		s = c.withParens(n.kids[0], level+1) + " " + op + " " + c.withParens(n.kids[1], level+1)
	case "between":
		s = c.withParens(n.kids[0], level+1) + " between 1 and 7"
	case "pred":
		s = c.withParens(n.kids[0], level+1) + " is null"
	}
	if n.k == "id" {
		if level > 0 && sx.Choice(2) == 0 {
			return s
		}
		return "(" + s + ")"
	}
	return "(" + s + ")"
}

// ---- C08

// parts are valid queries of every binding strength.
var parts = []string{
	"a", "a = 1", "a or b", "a || b", "b and c", "not a", "not a or c", "(a)", "(a or b)", "(a) or (b)", "a between 1 and 7", "a in (1, 2)", "c not in [1]",
	" a or b ", "\na or b\n", "a or b --x\n", "--x\na or b", "//y\r\na", "a is null", "'x' = b or c", "\") or (\" = b", "a like ')'", "1", "true or a", "(1,2) = a", "f(a) or b",
}

// C08_Join: lists of up to N parts or blanks; also split over a nested list.
func C08_Join() {
	e := newRow("a", "b", "c")
	var list []string
	want := triBool(true)
	n, odd := manyOf(sx.Param("N", 3))
	k := len(parts)
	if p := sx.Param("P", 0); p > 0 {
		k = p
	}
	blanks := []string{"", " ", "\t\n", "\r\n"}
	empty := true
	for i := 0; i < n; i++ {
		c := i % 13
		if odd < 0 || odd == i {
			c = sx.Choice(k + len(blanks))
		}
		if c >= k {
			list = append(list, blanks[c-k])
			continue
		}
		empty = false
		list = append(list, parts[c])
		r, _ := refParse(parts[c])
		want = want.and(evalQ(r, e))
	}
	c08(list, empty, want, e)
}

// manyOf is the length of a list, up to n. With many=1 it is a larger one, and
// the second result is the position of the only element to be chosen.
func manyOf(n int) (int, int) {
	if sx.Param("many", 0) == 0 {
		return sx.Choice(n + 1), -1
	}
	n = []int{4, 5, 8, 9, 10, 16, 17, 33, 65}[sx.Choice(9)]
	return n, []int{0, n / 2, n - 1}[sx.Choice(3)]
}

func c08(list []string, empty bool, want tri, e env) {
	j := miniquery.Join(list)
	sx.Obs(j)
	if empty {
		sx.Assert(j == "", "joining nothing yields a query")
		return
	}
	sx.Reach("joined")
	n := parse(j)
	sx.Assert(n != nil, "joined query is not valid")
	sx.Assert(want.is(tv(evalT(toRn(n), e))), "joined query is not the conjunction")
	if len(list) > 1 {
		at := len(list) / 2
		if sx.Param("many", 0) == 0 {
			at = sx.Choice(len(list) + 1)
		}
		nested := []string{miniquery.Join(list[:at]), miniquery.Join(list[at:])}
		n := parse(miniquery.Join(nested))
		sx.Assert(n != nil, "joined nested list is not valid")
		sx.Assert(want.is(tv(evalT(toRn(n), e))), "nested list is not the conjunction")
	}
}

// C08_Gen: generated parts with symbolic literals.
func C08_Gen() {
	e := &anyRow{}
	var list []string
	want := triBool(true)
	g := &gen{left: sx.Param("B", 2), noArr: true, names: []string{"a", "b"}}
	for i := 2; i > 0; i-- {
		s := ""
		if i == 1 && sx.Param("big", 0) > 0 {
			s = parts[sx.Choice(4)]
		} else {
			s = g.query()
		}
		r, ok := refParse(s)
		sx.Assume(r != nil && ok)
		list = append(list, s)
		want = want.and(evalQ(r, e))
	}
	c08(list, false, want, e)
}

// C08_Near: parts that are alike: the same words in another letter case, with
// other white space, or with other literals.
func C08_Near() {
	e := &anyRow{}
	var list []string
	want := triBool(true)
	kind := sx.Choice(4)
	for i := 2 + sx.Choice(2); i > 0; i-- {
		s := ""
		switch kind {
		case 0: // literals
			s = "a = '" + utf8Lit(sx.Param("L", 2)) + "'"
		case 1:
			s = "a > " + []string{"1", "2"}[sx.Choice(2)] + digits(sx.Choice(3))
		case 2: // words and white space
			w := []string{"or", "and", "||", "&&"}[sx.Choice(4)]
			f := []string{" ", "\t", "\n", " \r\n ", "--x\n", " //) or (\n "}
			s = "a" + f[sx.Choice(len(f))] + anyCase(w) + f[sx.Choice(len(f))] + "b"
		case 3: // names
			s = anyCase("ab") + []string{"", " = 1", " or b"}[sx.Choice(3)]
		}
		r, ok := refParse(s)
		sx.Assume(r != nil && ok)
		list = append(list, s)
		want = want.and(evalQ(r, e))
		if kind == 2 && len(list) == 1 {
			list = append(list, []string{"c", "c or d"}[sx.Choice(2)])
			r, _ := refParse(list[1])
			want = want.and(evalQ(r, e))
			break
		}
	}
	c08(list, false, want, e)
}

// utf8Lit is text of letters and digits.
func utf8Lit(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		b := sx.Byte()
		sx.Assume(sx.Or(letter(b), digit(b)))
		s += string([]byte{b})
	}
	return s
}

// anyRow gives every name its own value.
type anyRow struct{ r row }

func (a *anyRow) name(s string) val {
	for i, n := range a.r.names {
		if n == s {
			return a.r.vals[i]
		}
	}
	v := anyVal()
	a.r.names = append(a.r.names, s)
	a.r.vals = append(a.r.vals, v)
	return v
}
func (a *anyRow) ref(names []string) val {
	s := ""
	for _, n := range names {
		s += "." + n
	}
	return a.name(s)
}
func (a *anyRow) fn(name string, n *rn) val {
	var args []val
	for _, k := range n.kids {
		args = append(args, evalV(k, a))
	}
	return callFn(args)
}

// ---- C09

type kindSet struct {
	v    *miniquery.Visitor
	seen []*miniquery.Node
	kind []string
	fail int
	err  error
}

var visitKinds = []string{"compare", "logic", "between", "function", "predicates", "parentheses", "not", "identifier", "reference", "operation", "value"}

func kindOf(n *miniquery.Node) string {
	if n.Type == miniquery.JsonReferenceNodeType {
		return "reference"
	}
	return string(n.Type)
}

func children(n *miniquery.Node) []*miniquery.Node {
	var r []*miniquery.Node
	switch kindOf(n) {
	case "compare", "logic":
		r = append(r, n.Left, n.Op, n.Right)
	case "predicates":
		r = append(r, n.Left, n.Op)
	case "between":
		r = append(append(r, n.Left, n.Op), n.Params...)
	case "function":
		r = n.Params
	case "parentheses", "not":
		r = append(r, n.Expression)
	case "value":
		r = n.Array
	}
	return r
}

func (k *kindSet) slot(kind string) *miniquery.VisitFunc {
	v := k.v
	switch kind {
	case "compare":
		return &v.BinaryExpression
	case "logic":
		return &v.LogicExpression
	case "between":
		return &v.BetweenExpression
	case "function":
		return &v.FunctionExpression
	case "predicates":
		return &v.PredicatesExpression
	case "parentheses":
		return &v.ParenthesesExpression
	case "not":
		return &v.NotExpression
	case "identifier":
		return &v.IdentifierNode
	case "reference":
		return &v.ReferenceNode
	case "operation":
		return &v.OperationNode
	}
	return &v.ValueNode
}

// expected lists the nodes reported when the kinds in set have a callback;
// the callback goes on to the children iff deep.
func expected(n *miniquery.Node, set map[string]bool, deep bool, out []*miniquery.Node) []*miniquery.Node {
	if set[kindOf(n)] {
		out = append(out, n)
		if !deep {
			return out
		}
	}
	for _, c := range children(n) {
		out = expected(c, set, deep, out)
	}
	return out
}

// C09_Walk: generated trees; any one or two kinds, all or none have a
// callback; the callback at any position may fail.
func C09_Walk() {
	g := &gen{left: sx.Param("B", 2)}
	root := parse(g.query())
	sx.Assert(root != nil, "rejected")
	set := map[string]bool{}
	sets := len(visitKinds) + 3
	if sx.Param("big", 0) > 0 {
		sets = 3
	}
	switch c := sx.Choice(sets); c {
	case 0:
	case 1:
		for _, k := range visitKinds {
			set[k] = true
		}
	case 2:
		set["identifier"], set["value"], set["operation"], set["reference"] = true, true, true, true
	default:
		set[visitKinds[c-3]] = true
	}
	walk(root, set)
}

// operand and context of the trees of C09_Sets.
var (
	walkTerms = []string{"a", "f((a), b)", "(not a)", "[1, 'x']", "a.b", "f(a = 1, (b), 2)", "((a))", "f()", "(a and b or c)", "(a)", "f(not a, [1], 'x')", "f(a)", "a->b", "1", "[]", "g(f((a)), not (b), c)", "[1, 2, 3, 'x', null]", "f(1, 2, 3, a, 5, b)"}
	walkConds = []struct{ pre, post string }{{"", ""}, {"not ", ""}, {"", " = b"}, {"b = ", ""}, {"", " and b = 1"}, {"b or not ", ""}, {"", " is null"}, {"", " between 1 and 'x'"}, {"", " not between [1, 2]"}, {"", " in (1, 2)"}, {"not (", " isnull)"}, {"a = 1 and (", " or b) and c"}, {"", " not like 'x'"}}
)

// C09_Sets: every set of callbacks, for trees with every kind of node inside
// of every other.
func C09_Sets() {
	t, c := walkTerms[sx.Choice(sx.Param("T", 7))], walkConds[sx.Choice(len(walkConds))]
	root := parse(c.pre + t + c.post)
	sx.Assume(root != nil)
	set, in := map[string]bool{}, map[string]bool{}
	kindsIn(root, in)
	rest := sx.Choice(2) == 1
	for _, k := range visitKinds {
		set[k] = rest
		if in[k] {
			set[k] = sx.Choice(2) == 1
		}
	}
	walk(root, set)
}

func kindsIn(n *miniquery.Node, in map[string]bool) {
	in[kindOf(n)] = true
	for _, c := range children(n) {
		kindsIn(c, in)
	}
}

// walk visits a tree with callbacks for the kinds in set, which go on to the
// children or not; the callback at any position may fail.
func walk(root *miniquery.Node, set map[string]bool) {
	deep := sx.Choice(2) == 0
	k := &kindSet{v: &miniquery.Visitor{}, fail: -1, err: errors.New("stop")}
	ctx := context.WithValue(context.Background(), ctxKey{}, "x")
	for _, kind := range visitKinds {
		if !set[kind] {
			continue
		}
		kind := kind
		*k.slot(kind) = func(c context.Context, n *miniquery.Node) error {
			sx.Assert(c.Value(ctxKey{}) == "x", "context lost")
			k.seen = append(k.seen, n)
			k.kind = append(k.kind, kind)
			if len(k.seen)-1 == k.fail {
				return k.err
			}
			if deep {
				for _, ch := range children(n) {
					if err := k.v.Visit(c, ch); err != nil {
						return err
					}
				}
			}
			return nil
		}
	}
	k.v.Init()
	want := expected(root, set, deep, nil)
	if len(want) > 0 && sx.Choice(2) == 1 {
		if n := len(want); n > 60 && sx.Param("big", 0) == 2 {
			k.fail = []int{0, 1, n / 2, n - 2, n - 1}[sx.Choice(5)]
		} else {
			k.fail = sx.Choice(n)
		}
		want = want[:k.fail+1]
	}
	err := k.v.Visit(ctx, root)
	if k.fail >= 0 {
		sx.Reach("fail")
		sx.Assert(err == k.err, "error of a callback is not returned")
	} else {
		sx.Assert(err == nil, "walk fails")
	}
	sx.Assert(len(k.seen) == len(want), "callbacks called too often or not often enough")
	for i := range want {
		sx.Assert(k.seen[i] == want[i], "wrong node or order")
		sx.Assert(k.kind[i] == kindOf(want[i]), "callback of another kind")
		sx.Obs(k.kind[i])
	}
}

type ctxKey struct{}

// C09_Wrap: callbacks that are added to the default ones.
func C09_Wrap() {
	t, c := walkTerms[sx.Choice(len(walkTerms))], walkConds[sx.Choice(len(walkConds))]
	root := parse(anyDigits(c.pre+t+c.post, 4))
	sx.Assume(root != nil)
	k := &kindSet{v: &miniquery.Visitor{}, fail: -1, err: errors.New("stop")}
	k.v.Init()
	set := map[string]bool{}
	for _, kind := range visitKinds {
		kind, def := kind, *k.slot(kind)
		if def == nil {
			sx.Reach("no default")
			return
		}
		set[kind] = true
		*k.slot(kind) = func(c context.Context, n *miniquery.Node) error {
			k.seen = append(k.seen, n)
			if len(k.seen)-1 == k.fail {
				return k.err
			}
			return def(c, n)
		}
	}
	want := expected(root, set, true, nil)
	if sx.Choice(2) == 1 {
		k.fail = sx.Choice(len(want))
		want = want[:k.fail+1]
	}
	err := k.v.Visit(context.Background(), root)
	if k.fail >= 0 {
		sx.Assert(err == k.err, "error of a callback is not returned")
	} else {
		sx.Assert(err == nil, "walk fails")
	}
	sx.Assert(len(k.seen) == len(want), "callbacks called too often or not often enough")
	for i := range want {
		sx.Assert(k.seen[i] == want[i], "wrong node or order")
	}
}
