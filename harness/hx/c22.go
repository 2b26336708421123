package hx

import (
	"strings"

	"github.com/wenerme/go-miniquery/entmq"
	"github.com/wenerme/go-miniquery/gormq"
	"github.com/wenerme/go-miniquery/miniquery"
	"github.com/wenerme/go-miniquery/zzverif/sx"
	"gorm.io/gorm"
)

// ---- C22: what was converted before

// pastSizes are numbers of other queries that are converted in between.
var pastSizes = []int{0, 1, 2, 5, 17, 65, 129, 257}

func past(max int) int {
	k := 0
	for k < len(pastSizes) && pastSizes[k] <= max {
		k++
	}
	return pastSizes[sx.Choice(k)]
}

// between calls use with other queries, some of which are refused.
func between(n int, use func(string)) {
	for i := 0; i < n; i++ {
		switch i % 4 {
		case 1:
			use("b = " + dec(i) + " and (")
		case 2:
			use("b in [" + dec(i) + ", 'x'] or a = false")
		default:
			use("a = " + dec(i) + " and b > 'x'")
		}
	}
}

func dec(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return dec(n/10) + dec(n%10)
}

var entPast = []string{"a = 1", "a = 1 and b = 2", "b = true or a > 7", "not (a = 1 or b = 2)", "a in [1, 2] and b = 3", "has_edge(pets)", "has_edge(pets, a = 1)", "not has_edge(joinedGroups, has_edge(members, b = false))", "has_edge(children, has_edge(pets))", "has_edge(pets, has_edge(card)) and has_edge(card)",
	"a = 'x'", "a = 1 and (b is null or b = 2)"}

// anyDigits lets every number of a query have any digits, up to max digits in all.
func anyDigits(q string, max int) string {
	b := []byte(q)
	for i := range b {
		if digit(b[i]) && max > 0 {
			b[i] = sx.Byte()
			sx.Assume(sx.And(b[i] >= '1', b[i] <= '9'))
			max--
		}
	}
	return string(b)
}

// C22_Cfgs: a query is converted after others, after itself for another
// dialect, with or without casts, or for another entity.
func C22_Cfgs() {
	q := anyDigits(entPast[sx.Choice(len(entPast))], 9)
	ref, ok := refParse(q)
	sx.Assert(ref != nil && ok, "generator")
	if sx.Choice(2) == 0 {
		entSQL(q, pickCfg(8))
	} else {
		c := pickCfg(1)
		mb := entBuilder(q, c)
		mb.Node = entGraph.Nodes[1+sx.Choice(3)]
		mb.SetDialect(c.dialect)
		mb.Query()
	}
	c := pickCfg(8)
	between(past(sx.Param("N", 17)), func(s string) { entSQL(s, c) })
	r := entSQL(q, c)
	sx.Assert(r.err == nil, "query refused after others: "+q)
	entBound(r, ref)
	castsAs(r, ref, c)
	d, e := newEntDB()
	evalQ(ref, e) // makes the tables
	for t := range entCols {
		if used(r.ts, t) {
			d.table(t)
		}
	}
	d.references()
	sx.Assert(evalQ(ref, e).is(entTruth(d, e.r, r)), "predicate differs after others: "+r.sql)
}

// C22_Models: a query is converted after itself for another model.
func C22_Models() {
	cands := []struct{ name, user, swap string }{{"a", "a", "a"}, {"b", "b", "b"}, {"A", "a", "b"}, {"B", "b", "a"}, {"id", "id", "id"}, {"c", "c", ""}, {"first", "", "name"}, {"XY", "", "XY"}}
	c := cands[sx.Choice(len(cands))]
	q := []string{" = 1", " in [1, 2]", " is null", " = 1 or a = 2"}[sx.Choice(4)]
	q = c.name + anyDigits(q, 9)
	f := gormq.ApplyMiniQuery(q)
	g := f
	switch sx.Choice(3) {
	case 1:
		g = gormq.ApplyMiniQuery(q)
	case 2:
		f = gormq.MiniQuery{Query: []string{q}}.Scope
		g = f
	}
	user := func(f func(*gorm.DB) *gorm.DB) *gres {
		return find(gdb.Model(&gUser{}).Scopes(f))
	}
	swap := func(f func(*gorm.DB) *gorm.DB) *gres {
		var out []gSwap
		return gormSQL(gdb.Model(&gSwap{}).Scopes(f).Find(&out))
	}
	n := past(sx.Param("N", 17))
	more := func() {
		between(n, func(s string) { user(gormq.ApplyMiniQuery(s)) })
	}
	var r *gres
	col, table := "", ""
	if sx.Choice(2) == 0 {
		user(f)
		more()
		r, col, table = swap(g), c.swap, "swaps"
	} else {
		swap(f)
		more()
		r, col, table = user(g), c.user, "users"
	}
	if col == "" {
		sx.Assert(r.err != nil, "name of another model accepted: "+q)
		return
	}
	sx.Assert(r.err == nil, "query refused after use with another model: "+q)
	first := true
	for i, t := range r.ts {
		if t.k == "id" && i > 0 && t.s != "users" && t.s != "swaps" && t.s != "deleted_at" && first {
			sx.Assert(t.s == col, "name rendered as the column of another model: "+r.sql)
			first = false
		}
		if t.k == "id" && (t.s == "users" || t.s == "swaps") {
			sx.Assert(t.s == table, "table of another model: "+r.sql)
		}
	}
	sx.Assert(!first, "column expected: "+r.sql)
}

// C22_Many: a query is read and converted again after many others.
func C22_Many() {
	q := samples[sx.Choice(len(samples))]
	if !strings.Contains(q, ".") {
		q = anyDigits(q, 2)
	}
	n := past(sx.Param("N", 257))
	ref, ok := refParse(q)
	switch sx.Choice(3) {
	case 0:
		_, e0 := miniquery.Parse(q)
		between(n, func(s string) { miniquery.Parse(s) })
		x, err := miniquery.Parse(q)
		sx.Assert((err == nil) == (e0 == nil), "query is refused or accepted because of earlier ones")
		if err == nil && ok && ref != nil {
			sx.Assert(same(toRn(x), ref, false), "tree depends on earlier queries")
		}
	case 1:
		how := sx.Choice(2)
		scope := func(q string) func(*gorm.DB) *gorm.DB {
			if how == 0 {
				return gormq.ApplyMiniQuery(q)
			}
			return gormq.MiniQuery{Query: []string{q, "b = 3"}}.Scope
		}
		f := scope(q)
		x := find(gdb.Model(&gUser{}).Scopes(f))
		between(n, func(s string) { find(gdb.Model(&gUser{}).Scopes(scope(s))) })
		if sx.Choice(2) == 1 {
			f = scope(q)
		}
		y := find(gdb.Model(&gUser{}).Scopes(f))
		sx.Assert((x.err == nil) == (y.err == nil), "error depends on earlier queries")
		sx.Assert(x.sql == y.sql && sameArgs(x.vars, y.vars), "statement depends on earlier queries: "+y.sql)
	case 2:
		mb := &entmq.MiniQLToEntQLBuilder{Query: q}
		x, err := mb.Build()
		between(n, func(s string) { entmq.BuildEntQL(s) })
		if sx.Choice(2) == 1 {
			mb = &entmq.MiniQLToEntQLBuilder{Query: q}
		}
		y, err2 := mb.Build()
		sx.Assert((err == nil) == (err2 == nil), "error depends on earlier queries")
		if err == nil {
			sx.Assert((x == nil) == (y == nil), "predicate depends on earlier queries")
			if x != nil {
				sx.Assert(sx.StrEq(qlText(x), qlText(y)) && sameArgs(qlLits(x, nil), qlLits(y, nil)), "predicate depends on earlier queries: "+qlText(y))
			}
		}
	}
}

// C22_Often: a scope, a builder and a predicate are used many times.
func C22_Often() {
	q := anyDigits(entPast[sx.Choice(len(entPast))], 9)
	n := 3 + past(sx.Param("N", 129))
	switch sx.Choice(3) {
	case 0:
		q = anyDigits(narrowEnt[sx.Choice(len(narrowEnt))], 9)
		f := gormq.MiniQuery{Query: []string{q, "a = 3"}}.Scope
		if sx.Choice(2) == 1 {
			f = gormq.ApplyMiniQuery(q)
		}
		x := find(gdb.Model(&gUser{}).Scopes(f))
		for i := 0; i < n; i++ {
			y := find(gdb.Model(&gUser{}).Scopes(f))
			sx.Assert((x.err == nil) == (y.err == nil), "error differs")
			sx.Assert(x.sql == y.sql && sameArgs(x.vars, y.vars), "statement differs when applied often: "+y.sql)
		}
	case 1:
		c := pickCfg(4)
		mb := entBuilder(q, c)
		mb.SetDialect(c.dialect)
		s, a := mb.Query()
		e := mb.Err() != nil
		for i := 0; i < n; i++ {
			t, b := mb.Query()
			sx.Assert((mb.Err() != nil) == e, "error differs")
			sx.Assert(s == t && sameArgs(a, b), "predicate differs when built often: "+t)
		}
	case 2:
		q = anyDigits(narrowEnt[sx.Choice(len(narrowEnt))], 9)
		mb := &entmq.MiniQLToEntQLBuilder{Query: q}
		x, err := mb.Build()
		for i := 0; i < n; i++ {
			y, err2 := mb.Build()
			sx.Assert((err == nil) == (err2 == nil), "error differs")
			if err == nil {
				sx.Assert(sx.StrEq(qlText(x), qlText(y)) && sameArgs(qlLits(x, nil), qlLits(y, nil)), "predicate differs when built often: "+qlText(y))
			}
		}
	}
}

// ---- C13, C18, C21: something that has no form, anywhere

var badPlaces = []struct{ pre, post string }{{"", ""}, {"not ", ""}, {"(", ")"}, {"", " = 1"}, {"1 = ", ""}, {"", " and b = 2"}, {"b = 2 or ", ""}, {"", " is null"}, {"", " notnull"}, {"", " between 1 and 2"}, {"", " not between 1 and 2"}, {"", " in [1, 2]"},
	{"", " not like 'x'"}, {"date(", ")"}, {"a > ", " and c"}, {"not (a or ", ")"}, {"a = ", " or b"}, {"has_edge(pets, ", ")"}, {"has_edge(children, b = 1 and ", ")"}}

// badQuery puts one of the texts in places within places.
func badQuery(bad []string, places int) string {
	q := bad[sx.Choice(len(bad))]
	for d := sx.Param("D", 2); d > 0; d-- {
		p := badPlaces[sx.Choice(places)]
		q = p.pre + q + p.post
		if p.pre == "" && p.post == "" {
			break
		}
	}
	return anyDigits(q, 2)
}

// C13_Bad: something without SQL form within any two constructs.
func C13_Bad() {
	q := badQuery([]string{"nope", "f(a)", "a.b", "Org.nope", "Nope.a", "a->b", "Org.a.b", "date(nope)", "Hidden", "Items", "now()"}, len(badPlaces)-2)
	r := find(gormApply(gdb.Model(&gUser{}), sx.Choice(2), q))
	sx.Assert(r.err != nil, "query that cannot be converted accepted: "+q)
}

// C18_Bad: something without SQL form within any two constructs.
func C18_Bad() {
	q := badQuery([]string{"f(a)", "a.b", "a->b", "date()", "date(a, b)", "has_edge(nope)", "has_edge()", "has_edge(pets())", "has_edge(pets(a = 1))", "has_edge(pets(), a = 1)", "has_edge(pets, a)", "has_edge(not pets)", "has_edge(pets, f(a) = 1)", "has_edge(pets is null)", "now()"}, len(badPlaces))
	r := entSQL(q, pickCfg(2))
	sx.Assert(r.err != nil, "query that cannot be converted accepted: "+q)
}

// C21_Bad: something without entql form within any two constructs.
func C21_Bad() {
	q := badQuery([]string{"f(a)", "a.b", "a->b", "date(a)", "(a like 'x')", "has_edge(pets, a = 1)", "now()", "(a between 1 and 2) = b and f()"}, len(badPlaces))
	_, err := entmq.BuildEntQL(q)
	sx.Assert(err != nil, "query that cannot be converted accepted: "+q)
}
