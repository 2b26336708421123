package hx

import (
	"entgo.io/ent/dialect/sql"
	"entgo.io/ent/entql"
	"github.com/wenerme/go-miniquery/entmq"
	"github.com/wenerme/go-miniquery/gormq"
	"github.com/wenerme/go-miniquery/miniquery"
	"github.com/wenerme/go-miniquery/zzverif/sx"
	"gorm.io/gorm"
)

// ---- evaluating entql trees

type qlEnv struct{ e env }

func (q qlEnv) value(v any) val { return argVal(v) }

func (q qlEnv) eval(x entql.Expr) val {
	switch x := x.(type) {
	case *entql.Field:
		return q.e.name(x.Name)
	case *entql.Value:
		sx.Assert(x != nil, "null used as a value")
		if l, ok := x.V.([]any); ok {
			var vs []val
			for _, v := range l {
				vs = append(vs, q.value(v))
			}
			return callFn(vs)
		}
		return q.value(x.V)
	case *entql.UnaryExpr:
		sx.Assert(x.Op == entql.OpNot, "unary operator")
		return ofTv(not3(tv(q.eval(x.X))))
	case *entql.NaryExpr:
		sx.Assert(x.Op == entql.OpAnd || x.Op == entql.OpOr, "operator of several operands")
		t := boolTv(x.Op == entql.OpAnd)
		for _, k := range x.Xs {
			if x.Op == entql.OpAnd {
				t = and3(t, tv(q.eval(k)))
			} else {
				t = or3(t, tv(q.eval(k)))
			}
		}
		return ofTv(t)
	case *entql.BinaryExpr:
		return ofTv(q.binary(x))
	}
	sx.Assert(false, "unexpected entql node")
	return val{}
}

func (q qlEnv) binary(x *entql.BinaryExpr) t3 {
	l := q.eval(x.X)
	y, isVal := x.Y.(*entql.Value)
	if isVal && y == nil {
		switch x.Op {
		case entql.OpEQ:
			return boolTv(l.null)
		case entql.OpNEQ:
			return boolTv(!l.null)
		}
	}
	switch x.Op {
	case entql.OpIn, entql.OpNotIn:
		sx.Assert(isVal, "in without list")
		list, ok := y.V.([]any)
		sx.Assert(ok, "in without list")
		var vs []val
		for _, v := range list {
			vs = append(vs, q.value(v))
		}
		t := in3(l, vs)
		if x.Op == entql.OpNotIn {
			t = not3(t)
		}
		return t
	}
	r := q.eval(x.Y)
	switch x.Op {
	case entql.OpAnd:
		return and3(tv(l), tv(r))
	case entql.OpOr:
		return or3(tv(l), tv(r))
	case entql.OpEQ:
		return cmp3("eq", l, r)
	case entql.OpNEQ:
		return cmp3("neq", l, r)
	case entql.OpGT:
		return cmp3("gt", l, r)
	case entql.OpGTE:
		return cmp3("gte", l, r)
	case entql.OpLT:
		return cmp3("lt", l, r)
	case entql.OpLTE:
		return cmp3("lte", l, r)
	}
	sx.Assert(false, "unexpected entql operator")
	return t3{}
}

// qlText prints a tree; literals by kind only when they are not integers.
func qlText(x entql.Expr) string {
	switch x := x.(type) {
	case *entql.Field:
		return x.Name
	case *entql.Value:
		if x == nil {
			return "nil"
		}
		switch v := x.V.(type) {
		case nil:
			return "null"
		case string:
			return "'" + v + "'"
		case bool:
			return "bool"
		case []any:
			s := "["
			for _, e := range v {
				s += qlText(&entql.Value{V: e}) + ","
			}
			return s + "]"
		}
		return "n"
	case *entql.UnaryExpr:
		return x.Op.String() + "(" + qlText(x.X) + ")"
	case *entql.BinaryExpr:
		return "(" + qlText(x.X) + " " + x.Op.String() + " " + qlText(x.Y) + ")"
	case *entql.NaryExpr:
		s := "("
		for _, k := range x.Xs {
			s += x.Op.String() + " " + qlText(k)
		}
		return s + ")"
	}
	return "?"
}

// qlJoins reports whether and, or, not of a tree have conditions as operands: a
// predicate or a bool, never a field, another value or a list.
func qlJoins(x entql.Expr) bool {
	var xs []entql.Expr
	switch x := x.(type) {
	case *entql.UnaryExpr:
		xs = []entql.Expr{x.X}
	case *entql.BinaryExpr:
		if x.Op != entql.OpAnd && x.Op != entql.OpOr {
			return true
		}
		xs = []entql.Expr{x.X, x.Y}
	case *entql.NaryExpr:
		xs = x.Xs
	}
	for _, k := range xs {
		switch k := k.(type) {
		case *entql.Field:
			return false
		case *entql.Value:
			if k == nil {
				return false
			}
			if _, ok := k.V.(bool); !ok {
				return false
			}
		default:
			if !qlJoins(k) {
				return false
			}
		}
	}
	return true
}

// qlLits lists the values of a tree in order.
func qlLits(x entql.Expr, out []any) []any {
	switch x := x.(type) {
	case *entql.Value:
		if x == nil {
			return out
		}
		if l, ok := x.V.([]any); ok {
			return append(out, l...)
		}
		return append(out, x.V)
	case *entql.UnaryExpr:
		return qlLits(x.X, out)
	case *entql.BinaryExpr:
		return qlLits(x.Y, qlLits(x.X, out))
	case *entql.NaryExpr:
		for _, k := range x.Xs {
			out = qlLits(k, out)
		}
	}
	return out
}

func qlPredicate(n *rn) bool {
	for n.k == "paren" {
		n = n.kids[0]
	}
	switch n.k {
	case "logic", "cmp", "between", "pred", "not":
		return true
	}
	return false
}

// boolLit reports true and false, also in parentheses.
func boolLit(n *rn) bool {
	for n.k == "paren" {
		n = n.kids[0]
	}
	return n.k == "bool"
}

// qlSupported reports whether entql has a form for the query.
func qlSupported(n *rn) bool {
	switch n.k {
	case "func", "ref", "json":
		return false
	case "cmp":
		if n.op == "like" || n.op == "not like" {
			return false
		}
	case "pred":
		if n.op != "is null" && n.op != "is not null" {
			return false
		}
	case "not":
		if !qlPredicate(n.kids[0]) {
			return false
		}
	case "logic":
		for _, k := range n.kids {
			if !qlPredicate(k) && !boolLit(k) {
				return false
			}
		}
	}
	for _, k := range n.kids {
		if !qlSupported(k) {
			return false
		}
	}
	return true
}

// bound counts the literals that have a value.
func bound(lits []*rn) (n int) {
	for _, l := range lits {
		if l.k != "empty" {
			n++
		}
	}
	return
}

// emptyTwice has the left operand of in with an empty list twice.
func emptyTwice(n *rn) *rn {
	c := *n
	c.kids = nil
	for _, k := range n.kids {
		c.kids = append(c.kids, emptyTwice(k))
	}
	if n.k == "cmp" && n.kids[1].k == "arr" && len(n.kids[1].kids) == 0 {
		c.kids = append(c.kids, c.kids[0])
	}
	return &c
}

func qlMeaning(q string, ref *rn, p entql.P) {
	sx.Obs(qlText(p))
	e := &anyRow{}
	meaning(ref, e, tv(qlEnv{e}.eval(p)), asIs, "KF2", "predicate differs from the query: "+qlText(p))
	got := qlLits(p, nil)
	lits := literals(ref, false, nil)
	// the left operand of between, and of in with an empty list, may be used twice
	for _, r := range []*rn{ref, emptyTwice(ref)} {
		for _, twice := range []bool{false, true} {
			if l := literals(r, twice, nil); len(got) == bound(l) {
				lits = l
			}
		}
	}
	sameLits(got, lits, qlText(p))
}

// C20_Gen: generated queries on a row with any values.
func C20_Gen() {
	g := &gen{left: sx.Param("B", 2), names: []string{"a", "b", "c", "fullName"}, noRef: true, noJSON: true, noFn: true, noArr: true}
	q := g.query()
	ref, ok := refParse(q)
	sx.Assert(ref != nil && ok, "generator")
	p, err := entmq.BuildEntQL(q)
	if err != nil {
		sx.Reach("refused")
		sx.Assert(!(qlPredicate(ref) && qlSupported(ref)), "query refused: "+q)
		return
	}
	sx.Assert(p != nil, "no predicate")
	sx.Reach("built")
	qlMeaning(q, ref, p)
}

// C20_Chain: chains of and, or and not.
func C20_Chain() {
	c := &chain{g: &gen{left: sx.Param("B", 1)}, e: &row{names: []string{"a", "b", "c", "fullName"}}, whole: sx.Choice(2) == 0}
	q, want := c.chain(sx.Param("N", 4))
	p, err := entmq.BuildEntQL(q)
	if err != nil {
		sx.Assert(!(qlPredicate(want) && qlSupported(want)), "query refused: "+q)
		return
	}
	sx.Assert(p != nil, "no predicate")
	e := &anyRow{}
	meaning(want, e, tv(qlEnv{e}.eval(p)), asIs, "KF2", "predicate differs from the query: "+qlText(p))
}

var qlPlaces = []struct{ pre, post string }{
	{"c = ", ""}, {"", " = c"}, {"c in [", "]"}, {"c in (1, ", ", 'x')"}, {"c between ", " and 2"}, {"c between 1 and ", ""}, {"not c <> ", ""}, {"(c = ", ")"}, {"c >= ", " or a = 1"}, {"a = 1 and c < ", " and b = 2"},
}

// C20_Lit: literals with any content.
func C20_Lit() {
	p := qlPlaces[sx.Choice(len(qlPlaces))]
	var l *rn
	var t string
	if sx.Param("shape", 0) == 1 || sx.Choice(2) == 0 {
		s := litStr('\'')
		l, t = &rn{k: "str", s: s}, "'"+s+"'"
	} else {
		for i := 1 + sx.Choice(18); i > 0; i-- {
			b := sx.Byte()
			sx.Assume(digit(b))
			if t == "" {
				sx.Assume(b != '0')
			}
			t += string([]byte{b})
		}
		v, _ := decimal(t)
		l = &rn{k: "int", n: v}
	}
	ref, _ := refParse(p.pre + "99" + p.post)
	setLit(ref, l)
	x, err := entmq.BuildEntQL(p.pre + t + p.post)
	sx.Assert(err == nil, "query refused")
	sameLits(qlLits(x, nil), literals(ref, false, nil), "")
}

// ---- C21

func c21(q string) {
	ref, ok := refParse(q)
	p, err := entmq.BuildEntQL(q)
	if err != nil {
		sx.Reach("error")
		sx.Obs("error")
		return
	}
	if q == "" {
		sx.Assert(p == nil, "predicate for an empty query")
		return
	}
	sx.Assert(p != nil, "no predicate for a query")
	sx.Obs(qlText(p))
	sx.Assert(ref != nil, "text that is not a query accepted")
	sx.Assert(ok, "query with a number that does not fit accepted")
	for _, k := range []string{"func", "ref", "json"} {
		sx.Assert(!hasOp(ref, k, ""), "query that entql cannot express accepted: "+qlText(p))
	}
	sx.Assert(qlJoins(p), "and, or, not of something that is not a condition: "+qlText(p))
	sx.Reach("built")
	e := &anyRow{}
	meaning(ref, e, tv(qlEnv{e}.eval(p)), asIs, "KF2", "predicate differs from the query: "+qlText(p))
}

func C21_Bytes() { c21(sx.StrUpTo(sx.Param("L", 3))) }
func C21_Holes() { c21(holeText(sx.Param("K", 2))) }
func C21_Edit()  { c21(edited(sx.Param("D", 1), sx.Param("K", 1))) }

// C21_Gen: generated queries with everything the grammar has.
func C21_Gen() {
	g := &gen{left: sx.Param("B", 3), noArr: true}
	c21(g.query())
}

// filter records what is applied.
type filter struct{ ps []entql.P }

func (f *filter) Where(p entql.P) { f.ps = append(f.ps, p) }

var qlPool = []struct {
	q   string
	bad bool
}{
	{"a = 1", false}, {"a = 1 or b = 2", false}, {"not (a = b)", false}, {"", false}, {"a is null and b in [1, 2]", false}, {"b between 1 and c", true},
	{"a = ", true}, {"f(a)", true}, {"a", true}, {"1", true}, {"a.b = 1", true}, {"a->b = 1", true}, {"a like 'x'", true}, {"not a", true}, {"a = 1) or (b", true}, {"a is true", true}, {"a = 99999999999999999999", true},
	{"a and b = 1", true}, {"b = 1 or 'x'", true}, {"not (b = 1 and 2)", true},
}

// C21_List: lists of queries applied to a filter.
func C21_List() {
	var qs []string
	var refs []*rn
	bad := false
	n, odd := manyOf(sx.Param("N", 3))
	for i := 0; i < n; i++ {
		x := qlPool[i%4]
		if odd < 0 || odd == i {
			x = qlPool[sx.Choice(len(qlPool))]
		}
		qs = append(qs, x.q)
		if x.bad {
			bad = true
		}
		if !bad && x.q != "" {
			r, _ := refParse(x.q)
			refs = append(refs, r)
		}
	}
	f := &filter{}
	err := entmq.ApplyEntQL(f, qs)
	if bad {
		sx.Reach("refused")
		sx.Assert(err != nil, "list with a query that cannot be converted accepted")
		return
	}
	sx.Reach("applied")
	sx.Assert(err == nil, "list refused")
	sx.Assert(len(f.ps) == len(refs), "not every query applied once")
	e := &anyRow{}
	for i, p := range f.ps {
		sx.Assert(p != nil, "nil predicate applied")
		sx.Assert(evalQ(refs[i], e).is(tv(qlEnv{e}.eval(p))), "predicate differs from the query: "+qlText(p))
	}
}

// ---- C22

func sameArgs(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		x, y := argVal(plainArg(a[i])), argVal(plainArg(b[i]))
		r = sx.And(r, sx.And(x.null == y.null, x.n == y.n))
	}
	return r
}

// C22_Ent: the same predicate is built several times.
func C22_Ent() {
	g := entGen(sx.Param("B", 2))
	g.noArr = true
	q := g.query()
	c := pickCfg(6)
	mb := entBuilder(q, c)
	mb.SetDialect(c.dialect)
	if c.via == 0 {
		s, a := mb.Query()
		e := mb.Err() != nil
		for i := 0; i < 2; i++ {
			t, b := mb.Query()
			sx.Assert((mb.Err() != nil) == e, "error differs")
			sx.Assert(s == t, "predicate differs when built again: "+t)
			sx.Assert(sameArgs(a, b), "arguments differ when built again: "+t)
		}
		return
	}
	sel := sql.Dialect(c.dialect).Select().From(sql.Table("users")).Where(sql.EQ("a", 1)).Where(entP(mb))
	x := sel.Clone()
	s, a := x.Query()
	e := x.Err() != nil
	for i := 0; i < 2; i++ {
		y := sel.Clone()
		t, b := y.Query()
		sx.Assert((y.Err() != nil) == e, "error differs")
		sx.Assert(s == t, "statement differs when built again: "+t)
		sx.Assert(sameArgs(a, b), "arguments differ when built again: "+t)
	}
}

// C22_QL: the same entql builder is used several times.
func C22_QL() {
	g := &gen{left: sx.Param("B", 2), noArr: true}
	q := g.query()
	mb := &entmq.MiniQLToEntQLBuilder{Query: q}
	p, err := mb.Build()
	for i := 0; i < 2; i++ {
		p2, err2 := mb.Build()
		sx.Assert((err == nil) == (err2 == nil), "error differs")
		if err == nil {
			sx.Assert(sx.StrEq(qlText(p), qlText(p2)), "predicate differs when built again: "+qlText(p2))
			sx.Assert(sameArgs(qlLits(p, nil), qlLits(p2, nil)), "values differ when built again: "+qlText(p2))
		}
	}
	a, e1 := miniquery.Parse(q)
	b, e2 := miniquery.Parse(q)
	sx.Assert((e1 == nil) == (e2 == nil), "parsing again differs")
	if e1 == nil {
		sx.Assert(same(toRn(a), toRn(b), false), "parsing again differs")
	}
}

// C22_Gorm: the same scope is used for several statements.
func C22_Gorm() {
	g := userGen(sx.Param("B", 2))
	g.noArr = true
	q := g.query()
	f := gormq.ApplyMiniQuery(q)
	if sx.Choice(2) == 1 {
		f = gormq.MiniQuery{Query: []string{q, "b = 2"}}.Scope
	}
	shared := gdb.Model(&gUser{}).Session(&gorm.Session{})
	x := find(shared.Scopes(f))
	var n int64
	c := shared.Scopes(f).Count(&n)
	sx.Assert((c.Error == nil) == (x.err == nil), "error differs")
	for i := 0; i < 2; i++ {
		y := find(shared.Scopes(f))
		sx.Assert((y.err == nil) == (x.err == nil), "error differs")
		sx.Assert(x.sql == y.sql, "statement differs when applied again: "+y.sql)
		sx.Assert(sameArgs(x.vars, y.vars), "arguments differ when applied again: "+y.sql)
	}
}

// C22_Edit: queries that may be refused, used several times.
func C22_Edit() {
	q := edited(sx.Param("D", 1), sx.Param("K", 1))
	switch sx.Choice(4) {
	case 0:
		a, e1 := miniquery.Parse(q)
		b, e2 := miniquery.Parse(q)
		sx.Assert((e1 == nil) == (e2 == nil), "parsing again differs")
		if e1 == nil {
			sx.Assert(same(toRn(a), toRn(b), false), "parsing again differs")
		}
		again(e1)
	case 1:
		f := gormq.ApplyMiniQuery(q)
		x := find(gdb.Model(&gUser{}).Scopes(f))
		y := find(gdb.Model(&gUser{}).Scopes(f))
		sx.Assert((x.err == nil) == (y.err == nil), "error differs")
		sx.Assert(x.sql == y.sql && sameArgs(x.vars, y.vars), "statement differs when applied again")
		again(x.err)
	case 2:
		c := pickCfg(1)
		mb := entBuilder(q, c)
		mb.SetDialect(c.dialect)
		s, a := mb.Query()
		err := mb.Err()
		t, b := mb.Query()
		sx.Assert((mb.Err() == nil) == (err == nil), "error differs")
		sx.Assert(err != nil || s == t && sameArgs(a, b), "predicate differs when built again")
		again(err)
	case 3:
		mb := &entmq.MiniQLToEntQLBuilder{Query: q}
		p, err := mb.Build()
		p2, err2 := mb.Build()
		sx.Assert((err == nil) == (err2 == nil), "error differs")
		sx.Assert(err != nil || (p == nil) == (p2 == nil) && (p == nil || sx.StrEq(qlText(p), qlText(p2)) && sameArgs(qlLits(p, nil), qlLits(p2, nil))), "predicate differs when built again")
		again(err)
	}
}

func again(err error) {
	if err != nil {
		sx.Reach("error")
	} else {
		sx.Reach("same")
	}
}

// C22_Near: a query is read after a similar one.
func C22_Near() {
	s := samples[sx.Choice(len(samples))]
	i := sx.Choice(len(s) + 1)
	j := i + sx.Choice(sx.Param("D", 1)+1)
	sx.Assume(j <= len(s))
	t := s[:i] + sx.StrUpTo(sx.Param("K", 1)) + s[j:]
	if sx.Choice(2) == 1 {
		s, t = t, s
	}
	miniquery.Parse(s)
	n, err := miniquery.Parse(t)
	ref, ok := refParse(t)
	if err != nil && !(ref != nil && ok) || err == nil && ref != nil && same(toRn(n), ref, false) {
		sx.Reach("as before")
		return
	}
	// Other than the grammar says. That is for C02 unless a text that was not
	// read before has another tree.
	m, err2 := miniquery.Parse("(" + t + ")")
	sx.Assert((err == nil) == (err2 == nil), "query is refused or accepted because of an earlier one")
	if err == nil {
		sx.Assert(same(toRn(n), toRn(m).kids[0], false), "tree depends on an earlier query")
	}
}

// C22_Lit: a query is converted after one with another literal.
func C22_Lit() {
	p := litPlaces[sx.Choice(len(litPlaces))]
	var q [2]string
	str := sx.Choice(2) == 0
	for i := range q {
		if str {
			s := utf8Str(sx.Param("L", 2))
			for i := 0; i < len(s); i++ {
				sx.Assume(s[i] != '\'')
			}
			q[i] = p.pre + "'" + s + "'" + p.post
		} else {
			t := ""
			for k := 1 + sx.Choice(sx.Param("N", 3)); k > 0; k-- {
				b := sx.Byte()
				sx.Assume(digit(b))
				if t == "" {
					sx.Assume(b != '0')
				}
				t += string([]byte{b})
			}
			q[i] = p.pre + t + p.post
		}
	}
	// A text that was not used before has to give the same arguments.
	alone := "(" + q[1] + ")"
	switch sx.Choice(3) {
	case 0:
		find(gormApply(gdb.Model(&gUser{}), 0, q[0]))
		r := find(gormApply(gdb.Model(&gUser{}), 0, q[1]))
		x := find(gormApply(gdb.Model(&gUser{}), 0, alone))
		sx.Assert((r.err == nil) == (x.err == nil), "error depends on an earlier query")
		sx.Assert(sameArgs(r.vars, x.vars), "arguments depend on an earlier query")
	case 1:
		c := pickCfg(2)
		entSQL(q[0], c)
		r, x := entSQL(q[1], c), entSQL(alone, c)
		sx.Assert((r.err == nil) == (x.err == nil), "error depends on an earlier query")
		sx.Assert(sameArgs(r.vars, x.vars), "arguments depend on an earlier query")
	case 2:
		entmq.BuildEntQL(q[0])
		x, err := entmq.BuildEntQL(q[1])
		y, err2 := entmq.BuildEntQL(alone)
		sx.Assert((err == nil) == (err2 == nil), "error depends on an earlier query")
		if err == nil {
			sx.Assert(sameArgs(qlLits(x, nil), qlLits(y, nil)), "predicate depends on an earlier query")
		}
	}
}
