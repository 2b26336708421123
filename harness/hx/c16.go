package hx

import (
	"entgo.io/ent/dialect/sql"
	"github.com/wenerme/go-miniquery/zzverif/sx"
)

func entGen(b int) *gen {
	return &gen{left: b, names: []string{"a", "b", "c", "fullName"}, noRef: true, noJSON: true, oneArg: true, edges: entEdges, table: "users"}
}

// literals lists the literals of a query in source order. With twice the left
// operand of between counts before each bound.
func literals(n *rn, twice bool, out []*rn) []*rn {
	switch n.k {
	case "int", "str", "bool", "null":
		return append(out, n)
	case "arr":
		if len(n.kids) == 0 {
			return append(out, &rn{k: "empty"})
		}
	case "between":
		out = literals(n.kids[0], twice, out)
		out = literals(n.kids[1], twice, out)
		if twice {
			out = literals(n.kids[0], twice, out)
		}
		return literals(n.kids[2], twice, out)
	}
	for _, k := range n.kids {
		out = literals(k, twice, out)
	}
	return out
}

// argKind is the kind of literal that an argument is.
func argKind(v any) string {
	switch v.(type) {
	case int, int64:
		return "int"
	case bool:
		return "bool"
	case string:
		return "str"
	}
	return ""
}

// entBound checks the text and the arguments of a predicate.
func entBound(r *eres, ref *rn) {
	var vals []any
	nulls := 0
	for i, t := range r.ts {
		switch t.k {
		case "num":
			// SELECT 1, or the placeholder-free parts of edge subqueries
			sx.Assert(i > 0 && r.ts[i-1].k == "word" && r.ts[i-1].s == "SELECT", "number in the statement: "+r.sql)
		case "word":
			sx.Assert(sqlWords[t.s], "unexpected word in the statement: "+t.s)
			is := i >= 1 && r.ts[i-1].s == "IS" || i >= 2 && r.ts[i-1].s == "NOT" && r.ts[i-2].s == "IS"
			if t.s == "NULL" && !is {
				vals = append(vals, nil) // null may be written as such
				nulls++
			}
		case "ph":
			sx.Assert(t.n < len(r.vars), "placeholder without argument: "+r.sql)
			v := plainArg(r.vars[t.n])
			if t.s != "" && v != nil {
				sx.Assert(castOf(t.s) == argKind(v), "cast of another type: "+r.sql)
			}
			vals = append(vals, v)
		}
	}
	once, twice := literals(ref, false, nil), literals(ref, true, nil)
	lits := once
	if len(vals) > len(once) {
		lits = twice
	}
	sameLits(vals, lits, r.sql)
	sx.Assert(len(r.vars)+nulls <= len(vals), "arguments without placeholder: "+r.sql)
}

// C16_Gen: generated queries with symbolic literals.
func C16_Gen() {
	q := entGen(sx.Param("B", 2)).query()
	ref, _ := refParse(q)
	r := entSQL(q, pickCfg(sx.Param("cfg", 3)))
	if r.err != nil { // C18 decides whether that is right
		sx.Reach("error")
		return
	}
	sx.Reach("sql")
	sx.Obs(r.sql)
	entBound(r, ref)
}

var entPlaces = []struct{ pre, post string }{
	{"c = ", ""}, {"", " = c"}, {"c in [", "]"}, {"c in (1, ", ", 'x')"}, {"c between ", " and 2"}, {"c between 1 and ", ""}, {"c like ", " or a"},
	{"not c <> ", ""}, {"(c = ", ")"}, {"date(", ") = c"}, {"", ""}, {"c not like ", " and b"}, {"c between [1, ", "]"},
	{"has_edge(pets, c = ", ")"}, {"has_edge(joinedGroups, 1 = ", " or c = 2) and a = 1"}, {"a = 1 and has_edge(parent, has_edge(pen_friends, c = ", "))"}, {"c not between ", " and 2"},
}

// C16_Str: string literals with any content of up to L bytes.
func C16_Str() {
	p := entPlaces[sx.Choice(len(entPlaces))]
	q := []string{"'", "\""}[sx.Choice(2)]
	s := litStr(q[0])
	r := entSQL(p.pre+q+s+q+p.post, pickCfg(sx.Param("cfg", 3)))
	sx.Assert(r.err == nil, "query refused")
	sx.Obs(r.sql)
	ref, _ := refParse(p.pre + "99" + p.post)
	setLit(ref, &rn{k: "str", s: s})
	entBound(r, ref)
}

// C16_Int: integer literals of 1..D digits with any digits.
func C16_Int() {
	p := entPlaces[sx.Choice(len(entPlaces))]
	d := 1 + sx.Choice(sx.Param("D", 18))
	s := ""
	for i := 0; i < d; i++ {
		b := sx.Byte()
		sx.Assume(digit(b))
		if i == 0 {
			sx.Assume(b != '0')
		}
		s += string([]byte{b})
	}
	v, _ := decimal(s)
	r := entSQL(p.pre+s+p.post, pickCfg(sx.Param("cfg", 3)))
	sx.Assert(r.err == nil, "query refused")
	sx.Obs(r.sql)
	ref, _ := refParse(p.pre + "99" + p.post)
	setLit(ref, &rn{k: "int", n: v})
	entBound(r, ref)
}

// setLit replaces the literal 99.
func setLit(n *rn, l *rn) {
	if n.k == "int" && n.n == 99 {
		*n = *l
		return
	}
	for _, k := range n.kids {
		setLit(k, l)
	}
}

// C16_Comment: comments and white space never reach the predicate.
func C16_Comment() {
	bases := [][]string{
		{"a", "=", "1"}, {"a", "not", "in", "[", "1", ",", "2", "]"}, {"a", "not", "like", "'x'"}, {"a", "is", "not", "null"}, {"not", "a", "between", "1", "and", "2", "or", "b"},
		{"date(", "a", ")", ">=", "'x'"}, {"a", "not", "between", "1", "and", "2"}, {"has_edge(", "pets", ",", "a", "=", "1", ")", "&&", "b"}, {"a", "||", "(", "b", ")"},
	}
	b := bases[sx.Choice(len(bases))]
	at := sx.Choice(len(b) + 1)
	plain, text := "", ""
	for i, t := range b {
		plain += t + " "
		if i == at {
			text += filler(1, sx.Param("M", 1))
		}
		text += t + " "
	}
	if at == len(b) {
		text += filler(1, sx.Param("M", 1))
	}
	c := pickCfg(2)
	g, h := entSQL(plain, c), entSQL(text, c)
	sx.Assert(g.err == nil, "query refused")
	sx.Assert(h.err == nil, "query with comment refused")
	sx.Obs(h.sql)
	sx.Assert(len(h.ts) == len(g.ts), "comment changes the predicate")
	for i := range g.ts {
		sx.Assert(g.ts[i].k == h.ts[i].k && sx.StrEq(g.ts[i].s, h.ts[i].s), "comment changes the predicate")
	}
	sx.Assert(len(g.vars) == len(h.vars), "comment changes the arguments")
}

// ---- C17

func hasOp(n *rn, k, op string) bool {
	if n.k == k && (op == "" || n.op == op) {
		return true
	}
	for _, x := range n.kids {
		if hasOp(x, k, op) {
			return true
		}
	}
	return false
}

// meaning compares a converted condition with the query; what is the condition
// as a function of the truth of the query. The known defect of "not between"
// is reported as such when, and only when, it explains the result.
func meaning(ref *rn, e env, got t3, what func(tri) tri, id, msg string) {
	want := what(evalQ(ref, e))
	if !hasOp(ref, "between", "not between") {
		sx.Assert(want.is(got), msg)
		return
	}
	notBetweenAnd = true
	bad := what(evalQ(ref, e))
	notBetweenAnd = false
	sx.Assert(sx.Or(want.is(got), bad.is(got)), msg)
	if !want.is(got) {
		sx.Known(id)
	}
}

func asIs(t tri) tri { return t }

// hasIs reports predicates the backend may refuse.
func hasIs(n *rn) bool {
	for _, op := range []string{"is true", "is false", "is not true", "is not false"} {
		if hasOp(n, "pred", op) {
			return true
		}
	}
	return false
}

// C17_Gen: generated queries on a row with any values.
func C17_Gen() {
	g := entGen(sx.Param("B", 2))
	g.noArr, g.edges = true, nil
	q := g.query()
	ref, ok := refParse(q)
	sx.Assert(ref != nil && ok, "generator")
	r := entSQL(q, pickCfg(sx.Param("cfg", 3)))
	if hasIs(ref) && r.err != nil {
		sx.Reach("refused")
		return
	}
	sx.Assert(r.err == nil, "query refused: "+q)
	sx.Obs(r.sql)
	d, e := newEntDB()
	meaning(ref, e, entTruth(d, e.r, r), asIs, "KF1", "predicate differs from the query: "+r.sql)
}

// C17_Chain: chains of and, or and not.
func C17_Chain() {
	c := &chain{g: &gen{left: sx.Param("B", 1)}, e: &row{names: []string{"a", "b", "c", "fullName"}}}
	q, want := c.chain(sx.Param("N", 4))
	r := entSQL(q, pickCfg(sx.Param("cfg", 2)))
	if hasIs(want) && r.err != nil {
		return
	}
	sx.Assert(r.err == nil, "query refused: "+q)
	sx.Obs(r.sql)
	d, e := newEntDB()
	meaning(want, e, entTruth(d, e.r, r), asIs, "KF1", "predicate differs from the query: "+r.sql)
}

// C17_With: the predicate combined with others.
func C17_With() {
	g := entGen(sx.Param("B", 1))
	g.noArr, g.edges = true, nil
	q := g.query()
	if g.left > 0 { // leave what is not used to the list
		q = narrowEnt[sx.Choice(len(narrowEnt))]
	}
	ref, ok := refParse(q)
	sx.Assert(ref != nil && ok, "generator")
	c := pickCfg(2)
	x, y := int(sx.Byte()&7), int(sx.Byte()&7)
	d, e := newEntDB()
	a, b := triCmp("eq", e.name("a"), val{n: x}), triCmp("eq", e.name("b"), val{n: y})
	mb := entBuilder(q, c)
	p := entP(mb)
	sel := sql.Dialect(c.dialect).Select().From(sql.Table("users"))
	A, B := sql.EQ("a", x), sql.EQ("b", y)
	what := asIs
	switch sx.Choice(10) {
	case 0:
		sel.Where(A).Where(p)
		what = func(t tri) tri { return a.and(t) }
	case 1:
		sel.Where(p).Where(sql.Or(A, B))
		what = func(t tri) tri { return t.and(a.or(b)) }
	case 2:
		sel.Where(sql.Or(p, A))
		what = func(t tri) tri { return t.or(a) }
	case 3:
		sel.Where(sql.Not(p))
		what = func(t tri) tri { return t.not() }
	case 4:
		sel.Where(sql.And(p, A))
		what = func(t tri) tri { return t.and(a) }
	case 5:
		sel.Where(sql.Or(A, sql.And(p, B)))
		what = func(t tri) tri { return a.or(t.and(b)) }
	case 6:
		sel.Where(sql.Not(sql.Or(p, B)))
		what = func(t tri) tri { return t.or(b).not() }
	case 7:
		sel.Where(sql.And(A, sql.Not(p)))
		what = func(t tri) tri { return a.and(t.not()) }
	case 8:
		sel.Where(p).Where(entP(entBuilder("a = 1 or b = 2", c)))
		o := triCmp("eq", e.name("a"), val{n: 1}).or(triCmp("eq", e.name("b"), val{n: 2}))
		what = func(t tri) tri { return t.and(o) }
	case 9:
		sel.Where(sql.Or(entP(entBuilder("a = 1 and b = 2", c)), p))
		o := triCmp("eq", e.name("a"), val{n: 1}).and(triCmp("eq", e.name("b"), val{n: 2}))
		what = func(t tri) tri { return o.or(t) }
	}
	r := &eres{}
	if sel.Clone().Query(); hasIs(ref) && mb.Err() != nil { // ent drops errors inside of Not and Or
		return
	}
	r.selector(sel, c)
	sx.Assert(r.err == nil, "query refused: "+q)
	sx.Obs(r.sql)
	meaning(ref, e, entTruth(d, e.r, r), what, "KF1", "predicate differs from the query: "+r.sql)
}

var narrowEnt = []string{"a = 1 or b = 2", "b > 3", "not a = 1 or b = 2", "a = 1 and b = 2 or c", "a = 1 || b = 2 && c", "(a) or (b)", "a in [1, 2] or a is null", "not (a or b)", "a = b", "c", "a between 1 and 2", "a not between 1 and 2", "a not between 1 and 2 or b", "not a", "not a in []", "a and b", "a = b = c"}

// ---- C18

// entConvertible reports whether a query has an SQL form for a table.
func entConvertible(n *rn, table string) bool {
	switch n.k {
	case "ref", "json":
		return false
	case "func":
		switch n.s {
		case "date":
			if len(n.kids) != 1 {
				return false
			}
		case "has_edge":
			if len(n.kids) < 1 || len(n.kids) > 2 || n.kids[0].k != "id" {
				return false
			}
			to := edgeTo(table, n.kids[0].s)
			if to == "" {
				return false
			}
			if len(n.kids) == 2 {
				switch n.kids[1].k {
				case "id", "ref", "json", "int", "str", "bool", "null", "arr":
					return false
				}
				return entConvertible(n.kids[1], to)
			}
			return true
		default:
			return false
		}
	}
	for _, k := range n.kids {
		if !entConvertible(k, table) {
			return false
		}
	}
	return true
}

func c18(q string, c entCfg) {
	ref, ok := refParse(q)
	r := entSQL0(q, c)
	if r.err != nil {
		sx.Reach("error")
		sx.Obs("error")
		return
	}
	sx.Obs(r.sql)
	if q == "" {
		if c.via == 0 {
			sx.Assert(r.sql == "", "predicate for an empty query")
		}
		return
	}
	sx.Assert(ref != nil, "text that is not a query accepted")
	sx.Assert(ok, "query with a number that does not fit accepted")
	sx.Assert(entConvertible(ref, "users"), "query that cannot be converted accepted: "+r.sql)
	sx.Reach("sql")
	e := entSQL(q, c) // and it is well formed
	sx.Assert(e.where != nil, "no predicate for a query: "+r.sql)
}

// entSQL0 converts without looking at the text.
func entSQL0(q string, c entCfg) *eres {
	mb := entBuilder(q, c)
	r := &eres{}
	if c.via == 0 {
		mb.SetDialect(c.dialect)
		r.sql, r.vars = mb.Query()
		r.err = mb.Err()
		return r
	}
	s := sql.Dialect(c.dialect).Select().From(sql.Table("users")).Where(entP(mb))
	r.sql, r.vars = s.Query()
	r.err = s.Err()
	return r
}

func C18_Bytes() { c18(sx.StrUpTo(sx.Param("L", 3)), pickCfg(2)) }
func C18_Holes() { c18(holeText(sx.Param("K", 2)), pickCfg(1)) }

// C18_Func: functions of every name.
func C18_Func() { c18(funcCall(sx.Param("N", 2)), pickCfg(2)) }

func C18_Edit() { c18(edited(sx.Param("D", 1), sx.Param("K", 1)), pickCfg(1)) }

// C18_Gen: generated queries with references, functions and edges.
func C18_Gen() {
	g := &gen{left: sx.Param("B", 3), funcs: []string{"date", "has_edge", "f", "Date"}}
	g.names = [][]string{{"a", "b"}, {"pets", "a"}}[sx.Choice(2)]
	c18(g.query(), pickCfg(2))
}

// C18_Edge: edge conditions that cannot be converted, at every depth.
func C18_Edge() {
	bad := []string{"f(a)", "a.b = 1", "has_edge(nope)", "has_edge(nope, a = 1)", "has_edge()", "has_edge('pets')", "has_edge(pets, 1)", "has_edge(pets, a)", "has_edge(owner, has_edge(nope))", "date()", "date(a, b)", "a->b = 1",
		"has_edge(pets, a = 1, b = 2)", "has_edge(pets.x)", "has_edge(pets, 'x')", "has_edge(pets, [1])", "has_edge([pets])", "has_edge((pets))", "has_edge(Pets)"}
	good := []string{"a = 1", "date(a) = 1", "has_edge(owner)", "has_edge(owner, a = 1)", "not (a = 1 or b)", "has_edge(pets)", "has_edge(pen_friends)"}
	var s string
	if c := sx.Choice(len(bad) + len(good)); c < len(bad) {
		s = bad[c]
	} else {
		s = good[c-len(bad)]
	}
	wrap := []struct{ pre, post string }{{"", ""}, {"has_edge(pets, ", ")"}, {"a = 1 or (", ")"}, {"not ", ""}, {"has_edge(pen_friends, b and has_edge(pets, ", "))"}, {"b = ", ""}, {"has_edge(joinedGroups, ", " or a = 1) and b"}, {"has_edge(parent, a = 1 and not ", ")"}, {"date(", ")"}}
	w := wrap[sx.Choice(len(wrap))]
	c18(w.pre+s+w.post, pickCfg(4))
}

// C18_Graph: missing parts of the schema graph.
func C18_Graph() {
	c := pickCfg(4)
	q := []string{"has_edge(pets)", "has_edge(pets, a = 1)", "a or has_edge(pets, has_edge(owner))", "has_edge(x, a = 1)"}[sx.Choice(4)]
	mb := entBuilder(q, c)
	n := *entGraph.Nodes[0]
	to := *entGraph.Nodes[1]
	es := n.Edges
	n.Edges = map[string]edgeOf{}
	for k, v := range es {
		n.Edges[k] = v
	}
	mb.Node = &n
	ok := false
	switch sx.Choice(6) {
	case 0:
		mb.Node = nil
	case 1:
		n.ID = nil
	case 2:
		n.Edges = nil
	case 3:
		n.Edges["pets"] = edgeOf{Spec: es["pets"].Spec}
	case 4:
		to.ID = nil
		n.Edges["pets"] = edgeOf{To: &to, Spec: es["pets"].Spec}
	case 5:
		ok = q != "has_edge(x, a = 1)"
	}
	var err error
	var s string
	if c.via == 0 {
		mb.SetDialect(c.dialect)
		s, _ = mb.Query()
		err = mb.Err()
	} else {
		sel := sql.Dialect(c.dialect).Select().From(sql.Table("users")).Where(entP(mb))
		s, _ = sel.Query()
		err = sel.Err()
	}
	if !ok {
		sx.Assert(err != nil, "edge without schema accepted: "+s)
	}
}

// ---- C19

// C19_Gen: generated queries with edge conditions on small databases.
func C19_Gen() {
	g := entGen(sx.Param("B", 2))
	g.noArr, g.noStr = true, true
	g.left++ // for the edge
	q := g.surrounded()
	ref, ok := refParse(q)
	sx.Assert(ref != nil && ok, "generator")
	c19(q, ref)
}

// C19_Pair: two conditions of any kind inside an edge, next to one outside.
func C19_Pair() {
	g := entGen(0)
	g.noArr, g.noStr = true, true
	es := entEdges[g.table]
	e := es[sx.Choice(sx.Param("E", len(es)))]
	in := g.anyCond(sx.Choice(anyConds)) + []string{" and ", " or "}[sx.Choice(2)]
	in += g.anyCond(sx.Choice(anyConds))
	s := []string{"", "a = 1 or ", "not ", "b and "}[sx.Choice(sx.Param("O", 4))]
	q := s + "has_edge(" + e.n + ", " + in + ")"
	ref, ok := refParse(q)
	sx.Assert(ref != nil && ok, "generator")
	c19(q, ref)
}

// C19_Big: long and deep conditions inside an edge.
func C19_Big() {
	g := entGen(sx.Param("B", 0))
	g.noArr, g.noStr, g.edges = true, true, nil
	es := entEdges[g.table]
	e := es[sx.Choice(sx.Param("E", len(es)))]
	in := g.query()
	s := []string{"", "a = 1 or ", "not ", "b and "}[sx.Choice(sx.Param("O", 4))]
	q := s + "has_edge(" + e.n + ", " + in + ")"
	ref, ok := refParse(q)
	sx.Assume(ref != nil && ok)
	c19(q, ref)
}

// surrounded is a query with at least one edge condition.
func (g *gen) surrounded() string {
	s := ""
	switch g.pick(5) {
	case 1:
		s = g.term() + " and "
	case 2:
		s = g.term() + " or "
	case 3:
		s = "not "
	case 4:
		s = g.literal() + " = "
	}
	es := entEdges[g.table]
	e := es[sx.Choice(len(es))]
	t := g.table
	g.table = e.t
	if g.pick(2) == 1 {
		s += "has_edge(" + e.n + ")"
	} else {
		s += "has_edge(" + e.n + ", " + g.edgeCond() + ")"
	}
	g.table = t
	switch g.pick(4) {
	case 1:
		s += " and " + g.term()
	case 2:
		s += " or " + g.term()
	case 3:
		s += " = " + g.literal()
	}
	return s
}

func c19(q string, ref *rn) {
	r := entSQL(q, pickCfg(sx.Param("cfg", 2)))
	if hasIs(ref) && r.err != nil {
		return
	}
	sx.Assert(r.err == nil, "query refused: "+q)
	sx.Obs(r.sql)
	d, e := newEntDB()
	evalQ(ref, e) // makes the tables
	for t := range entCols {
		if used(r.ts, t) {
			d.table(t)
		}
	}
	d.references()
	meaning(ref, e, entTruth(d, e.r, r), asIs, "KF1", "predicate differs from the query: "+r.sql)
}

func used(ts []tok, t string) bool {
	for _, x := range ts {
		if x.k == "id" && x.s == t {
			return true
		}
	}
	return false
}

// C19_Nest: nested edges to depth D.
func C19_Nest() {
	q := nest("users", sx.Param("D", 2))
	ref, ok := refParse(q)
	sx.Assert(ref != nil && ok, "generator")
	c19(q, ref)
}

func nest(table string, d int) string {
	es := entEdges[table]
	e := es[sx.Choice(len(es))]
	if d <= 1 {
		if sx.Choice(2) == 1 {
			return "has_edge(" + e.n + ")"
		}
		return "has_edge(" + e.n + ", a = 1 or b = 2)"
	}
	in := nest(e.t, d-1)
	switch sx.Choice(3) {
	case 1:
		in = "a = 1 or " + in
	case 2:
		in = "not " + in
	}
	return "has_edge(" + e.n + ", " + in + ")"
}
