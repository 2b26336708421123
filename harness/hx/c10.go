package hx

import (
	"github.com/wenerme/go-miniquery/gormq"
	"github.com/wenerme/go-miniquery/zzverif/sx"
	"gorm.io/gorm"
)

// ---- running the gorm backend

type gres struct {
	sql  string
	vars []any
	ts   []tok
	sel  *ssel
	rest []tok // what follows the condition
	err  error
}

// gormSQL takes the statement apart; the text has to be one well formed select.
func gormSQL(tx *gorm.DB) *gres {
	r := &gres{err: tx.Error}
	if r.err != nil {
		return r
	}
	r.sql, r.vars = tx.Statement.SQL.String(), tx.Statement.Vars
	r.ts = lex(r.sql, '`')
	sx.Assert(lexOK(r.ts), "statement contains unexpected text: "+r.sql)
	p := &sparse{ts: r.ts}
	r.sel = p.sel()
	sx.Assert(p.bad == "", "statement is not well formed: "+p.bad+": "+r.sql)
	r.rest = r.ts[p.i:]
	if len(r.rest) > 0 {
		t := r.rest[0]
		sx.Assert(t.k == "word" && (t.s == "ORDER" || t.s == "LIMIT" || t.s == "GROUP"), "text after the condition: "+r.sql)
	}
	return r
}

func find(db *gorm.DB) *gres {
	var out []gUser
	return gormSQL(db.Find(&out))
}

// gormApply applies queries the ways the package offers.
func gormApply(db *gorm.DB, how int, qs ...string) *gorm.DB {
	switch how {
	case 1:
		return db.Scopes(gormq.MiniQuery{Query: qs}.Scope)
	case 2:
		for _, q := range qs {
			db = gormq.ApplyMiniQuery(q)(db)
		}
		return db
	case 3:
		return gormq.MiniQuery{Query: qs}.Scope(db)
	}
	for _, q := range qs {
		db = db.Scopes(gormq.ApplyMiniQuery(q))
	}
	return db
}

// ---- rows

// gormRow gives every column of the model and of its relations a value.
type gormRow struct {
	anyRow
	table string          // name of the table of the model in the statement
	lone  map[string]bool // relations without a related row, if set
}

// related is the value of a column of a relation: null without related row.
func (r *gormRow) related(rel, col string) val {
	v := r.anyRow.name(rel + "." + col)
	if r.lone != nil {
		v.null = sx.Or(v.null, r.missing(rel))
	}
	return v
}

// missing says whether the row has no related row.
func (r *gormRow) missing(rel string) bool {
	m, ok := r.lone[rel]
	if !ok {
		m = sx.Bool()
		r.lone[rel] = m
	}
	return m
}

// kept says whether the joins of a statement keep the row.
func (r *gormRow) kept(g *gres) bool {
	k := true
	for _, t := range g.sel.from[1:] {
		if t.inner {
			k = sx.And(k, !r.missing(t.alias))
		}
	}
	return k
}

func (r *gormRow) name(s string) val {
	c := gCol("users", s)
	sx.Assert(c != "", "query with unknown name converted: "+s)
	return r.anyRow.name("." + c)
}

func (r *gormRow) ref(names []string) val {
	sx.Assert(len(names) == 2, "reference of several levels converted")
	c := gCol(gRels[names[0]], names[1])
	sx.Assert(c != "", "query with unknown reference converted")
	return r.related(names[0], c)
}

func (r *gormRow) fn(name string, n *rn) val {
	var args []val
	for _, k := range n.kids {
		args = append(args, evalV(k, r))
	}
	return callFn(args)
}

// column resolves a column of the statement.
func (r *gormRow) column(g *gres, names []string) val {
	if len(names) == 2 {
		for i, t := range g.sel.from {
			if t.alias == names[0] {
				sx.Assert(isCol(t.name, names[1]), "no such column: "+names[0]+"."+names[1])
				if i == 0 {
					return r.anyRow.name("." + names[1])
				}
				return r.related(t.alias, names[1])
			}
		}
		sx.Assert(false, "column of a table that is not joined: "+names[0]+"."+names[1])
	}
	sx.Assert(len(names) == 1, "column name")
	found := -1
	for i, t := range g.sel.from {
		if isCol(t.name, names[0]) {
			sx.Assert(found < 0, "ambiguous column: "+names[0])
			found = i
		}
	}
	sx.Assert(found >= 0, "no such column: "+names[0])
	if found == 0 {
		return r.anyRow.name("." + names[0])
	}
	return r.related(g.sel.from[found].alias, names[0])
}

// argVal is the value of a bound argument.
func argVal(a any) val {
	switch v := a.(type) {
	case nil:
		return val{null: true}
	case int:
		return val{n: v}
	case int64:
		return val{n: int(v)}
	case string:
		return strVal(v)
	case bool:
		return val{n: sx.IteInt(v, 1, 0)}
	}
	sx.Assert(false, "argument of unexpected type")
	return val{}
}

// truth evaluates the condition of a statement; no condition is true.
func (r *gormRow) truth(g *gres) t3 {
	if g.sel.where == nil {
		return boolTv(true)
	}
	e := &sqlEnv{col: func(n []string) val { return r.column(g, n) }}
	for _, a := range g.vars {
		e.args = append(e.args, argVal(a))
	}
	return e.truth(g.sel.where)
}

// ---- C10

var sqlWords = map[string]bool{"SELECT": true, "FROM": true, "WHERE": true, "AND": true, "OR": true, "NOT": true, "IS": true, "NULL": true, "TRUE": true,
	"FALSE": true, "IN": true, "LIKE": true, "BETWEEN": true, "DATE": true, "LEFT": true, "JOIN": true, "ON": true, "AS": true, "EXISTS": true}

// sameLit compares an argument with a literal, value and type.
func sameLit(a any, l *rn) bool {
	switch v := a.(type) {
	case nil:
		return l.k == "null"
	case int:
		return sx.And(l.k == "int", v == l.n)
	case int64:
		return sx.And(l.k == "int", int(v) == l.n)
	case string:
		return sx.And(l.k == "str", sx.StrEq(v, l.s))
	case bool:
		return sx.And(l.k == "bool", v == l.b)
	}
	return false
}

func boundOnly(g *gres, lits []*rn) {
	np := 0
	for _, t := range g.ts {
		switch t.k {
		case "num":
			sx.Assert(false, "number in the statement: "+g.sql)
		case "word":
			sx.Assert(sqlWords[t.s], "unexpected word in the statement: "+t.s)
		case "ph":
			np++
		}
	}
	sx.Assert(np == len(g.vars), "placeholders and arguments differ in number")
	sameLits(g.vars, lits, g.sql)
}

// sameLits compares the arguments with the literals of the query. An empty list
// has no elements to bind; it may be bound as one null.
func sameLits(vars []any, lits []*rn, sql string) {
	n := 0
	for _, l := range lits {
		if l.k != "empty" {
			n++
		}
	}
	i := 0
	for _, l := range lits {
		if l.k == "empty" {
			if i < len(vars) && vars[i] == nil && len(vars)-i > n {
				i++
			}
			continue
		}
		sx.Assert(i < len(vars), "literal without argument: "+sql)
		sx.Assert(sameLit(vars[i], l), "argument is not the literal: "+sql)
		i++
		n--
	}
	sx.Assert(i == len(vars), "more arguments than literals: "+sql)
}

func userGen(b int) *gen {
	return &gen{left: b, names: []string{"a", "b", "c", "FullName"}, refs: []string{"Org.a", "Profile.age", "Boss.a"}, funcs: []string{"date"}, noJSON: true}
}

// C10_Gen: generated queries with symbolic literals.
func C10_Gen() {
	g := userGen(sx.Param("B", 2))
	q := g.query()
	r := find(gormApply(gdb.Model(&gUser{}), sx.Choice(2), q))
	if r.err != nil { // C13 decides whether that is right
		sx.Reach("error")
		return
	}
	sx.Reach("sql")
	sx.Obs(r.sql)
	boundOnly(r, g.lits)
}

var litPlaces = []struct{ pre, post string }{
	{"c = ", ""}, {"", " = c"}, {"c in [", "]"}, {"c in (1, ", ", 'x')"}, {"c between ", " and 2"}, {"c between 1 and ", ""}, {"c like ", " or a"},
	{"not c <> ", ""}, {"(c = ", ")"}, {"date(", ") = c"}, {"Org.a = ", ""}, {"[", ", null] = c"}, {"", ""}, {"c not like ", " and b"}, {"c between [1, ", "]"},
}

// C10_Str: string literals with any content of up to L bytes.
func C10_Str() {
	p := litPlaces[sx.Choice(len(litPlaces))]
	q := []string{"'", "\""}[sx.Choice(2)]
	s := litStr(q[0])
	text := p.pre + q + s + q + p.post
	g := find(gormApply(gdb.Model(&gUser{}), sx.Choice(2), text))
	sx.Assert(g.err == nil, "query refused")
	sx.Obs(g.sql)
	lits := litsOf(p.pre, nil)
	lits = append(lits, &rn{k: "str", s: s})
	boundOnly(g, litsOf(p.post, lits))
}

// litsOf finds the fixed literals of a place.
func litsOf(t string, out []*rn) []*rn {
	for i := 0; i < len(t); i++ {
		switch {
		case t[i] == '1':
			out = append(out, &rn{k: "int", n: 1})
		case t[i] == '2':
			out = append(out, &rn{k: "int", n: 2})
		case t[i] == '\'':
			out = append(out, &rn{k: "str", s: "x"})
			i += 2
		case i+4 <= len(t) && t[i:i+4] == "null":
			out = append(out, &rn{k: "null"})
		}
	}
	return out
}

// C10_Int: integer literals of 1..D digits with any digits.
func C10_Int() {
	p := litPlaces[sx.Choice(len(litPlaces))]
	d := 1 + sx.Choice(sx.Param("D", 18))
	s := ""
	for i := 0; i < d; i++ {
		b := sx.Byte()
		sx.Assume(digit(b))
		if i == 0 {
			sx.Assume(b != '0')
		}
		s += string([]byte{b})
	}
	v, _ := decimal(s)
	g := find(gormApply(gdb.Model(&gUser{}), sx.Choice(2), p.pre+s+p.post))
	sx.Assert(g.err == nil, "query refused")
	sx.Obs(g.sql)
	lits := append(litsOf(p.pre, nil), &rn{k: "int", n: v})
	boundOnly(g, litsOf(p.post, lits))
}

// C10_Comment: comments and white space never reach the statement.
func C10_Comment() {
	b := gormBases[sx.Choice(len(gormBases))]
	at := sx.Choice(len(b) + 1)
	plain, text := "", ""
	for i, t := range b {
		plain += t + " "
		if i == at {
			text += filler(1, sx.Param("M", 1))
		}
		text += t + " "
	}
	if at == len(b) {
		text += filler(1, sx.Param("M", 1))
	}
	g := find(gormApply(gdb.Model(&gUser{}), 0, plain))
	h := find(gormApply(gdb.Model(&gUser{}), 1, text))
	sx.Assert(g.err == nil, "query refused")
	sx.Assert(h.err == nil, "query with comment refused")
	sx.Obs(h.sql)
	sx.Assert(len(h.ts) == len(g.ts), "comment changes the statement")
	for i := range g.ts {
		sx.Assert(g.ts[i].k == h.ts[i].k && sx.StrEq(g.ts[i].s, h.ts[i].s), "comment changes the statement")
	}
	sx.Assert(len(g.vars) == len(h.vars), "comment changes the arguments")
}

var gormBases = [][]string{
	{"a", "=", "1"}, {"a", "not", "in", "[", "1", ",", "2", "]"}, {"a", "not", "like", "'x'"}, {"a", "is", "not", "null"}, {"not", "a", "between", "1", "and", "2", "or", "b"},
	{"a", "is", "true"}, {"date(", "a", ")", ">=", "'x'"}, {"a", "not", "between", "1", "and", "2"}, {"Org.a", "&&", "(", "b", "||", "c", ")"},
}

// ---- C12

// C12_Gen: generated queries on a row with any values.
func C12_Gen() {
	g := userGen(sx.Param("B", 2))
	g.noArr = true
	q := g.query()
	ref, ok := refParse(q)
	sx.Assert(ref != nil && ok, "generator")
	r := find(gormApply(gdb.Model(&gUser{}), sx.Choice(2), q))
	sx.Assert(r.err == nil, "query refused: "+q)
	sx.Obs(r.sql)
	e := &gormRow{}
	sx.Assert(evalQ(ref, e).is(e.truth(r)), "condition differs from the query: "+r.sql)
}

// C12_Chain: chains of and, or and not.
func C12_Chain() {
	c := &chain{g: &gen{left: sx.Param("B", 1)}, e: &row{names: []string{"a", "b", "c", "FullName"}}}
	q, want := c.chain(sx.Param("N", 4))
	r := find(gormApply(gdb.Model(&gUser{}), 0, q))
	sx.Assert(r.err == nil, "query refused: "+q)
	sx.Obs(r.sql)
	e := &gormRow{}
	sx.Assert(evalQ(want, e).is(e.truth(r)), "condition differs from the query: "+r.sql)
}
