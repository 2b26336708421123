package hx

import (
	"database/sql/driver"

	"entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"entgo.io/ent/entql"
	"github.com/wenerme/go-miniquery/entmq"
	"github.com/wenerme/go-miniquery/zzverif/sx"
)

// ---- C24: values as a database driver gets them

// driverArgs converts arguments as database/sql does.
func driverArgs(vars []any) (out []any) {
	for _, a := range vars {
		v, err := driver.DefaultParameterConverter.ConvertValue(a)
		sx.Assert(err == nil, "argument that a driver refuses")
		out = append(out, v)
	}
	return
}

// entCasts checks that the casts of placeholders admit their values.
func entCasts(r *eres) {
	for _, t := range r.ts {
		if t.k != "ph" || t.s == "" {
			continue
		}
		switch v := plainArg(r.vars[t.n]).(type) {
		case int:
			sx.Assert(castOf(t.s) == "int" && (t.s == "BIGINT" || int(int32(v)) == v), "value does not fit its cast: "+r.sql)
		case int64:
			sx.Assert(castOf(t.s) == "int" && (t.s == "BIGINT" || int64(int32(v)) == v), "value does not fit its cast: "+r.sql)
		case bool:
			sx.Assert(castOf(t.s) == "bool", "value does not fit its cast: "+r.sql)
		case string:
			sx.Assert(castOf(t.s) == "str", "value does not fit its cast: "+r.sql)
		case nil:
		default:
			sx.Assert(false, "unexpected argument")
		}
	}
}

// anyLit is a literal with any content, its text and its value.
func anyLit() (string, *rn) {
	kind := 0
	if sx.Param("shape", 0) == 0 {
		kind = sx.Choice(6)
	}
	switch kind {
	case 0:
		s := litStr('\'')
		return "'" + s + "'", &rn{k: "str", s: s}
	case 1:
		return "true", &rn{k: "bool", b: true}
	case 2:
		return "false", &rn{k: "bool"}
	case 3:
		return "null", &rn{k: "null"}
	case 4:
		return "0", &rn{k: "int"}
	}
	t := ""
	for i := 1 + sx.Choice(sx.Param("D", 18)); i > 0; i-- {
		b := sx.Byte()
		sx.Assume(digit(b))
		if t == "" {
			sx.Assume(b != '0')
		}
		t += string([]byte{b})
	}
	v, ok := decimal(t)
	sx.Assume(ok)
	return t, &rn{k: "int", n: v}
}

// C24_Ent: one literal at every place of an ent SQL predicate.
func C24_Ent() {
	p := entPlaces[sx.Choice(len(entPlaces))]
	t, l := anyLit()
	r := entSQL(p.pre+t+p.post, pickCfg(sx.Param("cfg", 3)))
	sx.Assert(r.err == nil, "query refused")
	sx.Obs(r.sql)
	ref, _ := refParse(p.pre + "99" + p.post)
	setLit(ref, l)
	entCasts(r)
	r.vars = driverArgs(r.vars)
	entBound(r, ref)
}

// C24_Gorm: one literal at every place of a gorm condition.
func C24_Gorm() {
	p := litPlaces[sx.Choice(len(litPlaces))]
	t, l := anyLit()
	r := find(gormApply(gdb.Model(&gUser{}), sx.Choice(2), p.pre+t+p.post))
	sx.Assert(r.err == nil, "query refused")
	sx.Obs(r.sql)
	ref, _ := refParse(p.pre + "99" + p.post)
	setLit(ref, l)
	r.vars = driverArgs(r.vars)
	boundOnly(r, literals(ref, false, nil))
}

// C24_QL: one literal at every place of an entql predicate.
func C24_QL() {
	p := qlPlaces[sx.Choice(len(qlPlaces))]
	t, l := anyLit()
	x, err := entmq.BuildEntQL(p.pre + t + p.post)
	sx.Assert(err == nil, "query refused")
	ref, _ := refParse(p.pre + "99" + p.post)
	setLit(ref, l)
	sameLits(driverArgs(qlLits(x, nil)), literals(ref, false, nil), "")
}

// C24_Gen: generated queries.
func C24_Gen() {
	q := entGen(sx.Param("B", 2)).query()
	ref, _ := refParse(q)
	r := entSQL(q, pickCfg(sx.Param("cfg", 3)))
	if r.err != nil {
		sx.Reach("error")
		return
	}
	sx.Reach("sql")
	sx.Obs(r.sql)
	entCasts(r)
	r.vars = driverArgs(r.vars)
	entBound(r, ref)
}

// ---- C25: entql predicates as ent evaluates them

var qlGraph = func() *sqlgraph.Schema {
	n := entNode("User", "users")
	n.Fields = map[string]*sqlgraph.FieldSpec{}
	for _, f := range []string{"a", "b", "c", "fullName"} {
		n.Fields[f] = &sqlgraph.FieldSpec{Column: f}
	}
	return &sqlgraph.Schema{Nodes: []*sqlgraph.Node{n}}
}()

// evalP lets ent evaluate a predicate.
func evalP(p entql.P, s *sql.Selector) (err error, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			recover()
		}
	}()
	err = qlGraph.EvalP("User", p, s)
	panicked = false
	return
}

// boolOperand reports and, or with true or false as operand.
func boolOperand(n *rn) bool {
	if n.k == "logic" && (boolLit(n.kids[0]) || boolLit(n.kids[1])) {
		return true
	}
	for _, k := range n.kids {
		if boolOperand(k) {
			return true
		}
	}
	return false
}

// qlPlain: fields compared with fields and values, which ent evaluates.
func qlPlain(n *rn) bool {
	id := func(n *rn) bool {
		for n.k == "paren" {
			n = n.kids[0]
		}
		return n.k == "id"
	}
	lit := func(n *rn) bool {
		for n.k == "paren" {
			n = n.kids[0]
		}
		switch n.k {
		case "int", "str", "bool", "null", "arr":
			return true
		}
		return false
	}
	switch n.k {
	case "cmp":
		return id(n.kids[0]) && (id(n.kids[1]) || lit(n.kids[1]))
	case "pred", "between":
		return id(n.kids[0])
	case "logic", "not", "paren":
		for _, k := range n.kids {
			if !qlPlain(k) {
				return false
			}
		}
		return true
	}
	return false
}

func c25(q string, ref *rn, cfg int) {
	p, err := entmq.BuildEntQL(q)
	if err != nil { // C20 and C21 decide whether that is right
		sx.Reach("refused")
		return
	}
	if p == nil {
		return
	}
	c := pickCfg(cfg)
	s := sql.Dialect(c.dialect).Select().From(sql.Table("users"))
	err, bad := evalP(p, s)
	if bad {
		sx.Assert(boolOperand(ref), "evaluating the predicate panics: "+qlText(p))
		sx.Known("KF3")
		return
	}
	if err != nil {
		sx.Reach("error")
		sx.Assert(!qlPlain(ref), "predicate refused: "+qlText(p))
		return
	}
	sx.Reach("sql")
	r := &eres{}
	r.selector(s, c)
	sx.Assert(r.err == nil, "statement has an error")
	sx.Obs(r.sql)
	entBound(r, ref)
	e := newRow("a", "b", "c", "fullName")
	meaning(ref, e, entTruth(&entDB{}, e, r), asIs, "KF2", "statement differs from the query: "+r.sql)
}

// C25_Gen: generated queries.
func C25_Gen() {
	g := &gen{left: sx.Param("B", 2), names: []string{"a", "b", "c", "fullName"}, noRef: true, noJSON: true, noFn: true, noArr: true}
	q := g.query()
	ref, _ := refParse(q)
	c25(q, ref, sx.Param("cfg", 2))
}

// C25_Chain: chains of and, or and not.
func C25_Chain() {
	c := &chain{g: &gen{left: sx.Param("B", 1)}, e: &row{names: []string{"a", "b", "c", "fullName"}}, whole: true}
	q, _ := c.chain(sx.Param("N", 3))
	ref, _ := refParse(q)
	c25(q, ref, 1)
}

// C25_Pair: two conditions of every kind joined, negated and grouped.
func C25_Pair() {
	conds := []string{"a = 1", "not a < b", "a in []", "a not in []", "a in (1, 'x')", "a is null", "(b is not null)", "a between 1 and 2", "not a not in [1]", "a = null", "a", "true", "1", "'x'", "null", "(a)", "[1]",
		"not (a = 1 or b = 2)", "a = b", "not a between 1 and 2", "a in [null, 1]"}
	x, y := conds[sx.Choice(len(conds))], conds[sx.Choice(len(conds))]
	q := []string{x + " and " + y, x + " or " + y, "not (" + x + " or " + y + ")", "(" + x + " and " + y + ") or c = 3", "c = 3 and (" + x + ") and " + y}[sx.Choice(5)]
	ref, _ := refParse(q)
	sx.Assume(ref != nil)
	c25(q, ref, 1)
}

// ---- meaning of one literal of any kind at every place

// placed is a query with any literal in it.
func placed(ps []struct{ pre, post string }) (string, *rn) {
	p := ps[sx.Choice(len(ps))]
	t, l := anyLit()
	ref, _ := refParse(p.pre + "99" + p.post)
	setLit(ref, l)
	return p.pre + t + p.post, ref
}

// C12_Lit: any literal at every place.
func C12_Lit() {
	q, ref := placed(litPlaces)
	r := find(gormApply(gdb.Model(&gUser{}), 0, q))
	sx.Assert(r.err == nil, "query refused")
	e := &gormRow{}
	sx.Assert(evalQ(ref, e).is(e.truth(r)), "condition differs from the query: "+r.sql)
}

// C17_Lit: any literal at every place.
func C17_Lit() {
	q, ref := placed(entPlaces)
	entMeans(q, ref)
}

// C19_Lit: any literal within an edge condition.
func C19_Lit() {
	q, ref := placed([]struct{ pre, post string }{{"has_edge(pets, c = ", ")"}, {"has_edge(joinedGroups, 1 = ", " or c = 2) and a = 1"}, {"has_edge(card, c in [1, ", "])"}, {"has_edge(parent, c between 1 and ", ") or b = 2"}, {"has_edge(pets, not a like ", ") and has_edge(pets, b = 1)"}})
	entMeans(q, ref)
}

func entMeans(q string, ref *rn) {
	r := entSQL(q, pickCfg(2))
	sx.Assert(r.err == nil, "query refused")
	d, e := newEntDB()
	evalQ(ref, e) // makes the tables
	for t := range entCols {
		if used(r.ts, t) {
			d.table(t)
		}
	}
	d.references()
	meaning(ref, e, entTruth(d, e.r, r), asIs, "KF1", "predicate differs from the query: "+r.sql)
}

// C25_Lit: any literal at every place.
func C25_Lit() {
	q, ref := placed(qlPlaces)
	c25(q, ref, 1)
}

// C02_Lit: any literal at every place.
func C02_Lit() {
	p := pickPos()
	t, _ := anyLit()
	c02(p.pre + t + p.post)
}

// C08_Lit: parts with any literal at every place.
func C08_Lit() {
	q, ref := placed(entPlaces[:13])
	e := &anyRow{}
	list, want := []string{q, "a = 1 or b = 2"}, evalQ(ref, e)
	x, _ := refParse(list[1])
	want = want.and(evalQ(x, e))
	c08(list, false, want, e)
}
