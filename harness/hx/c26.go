package hx

import (
	"entgo.io/ent/dialect"
	"entgo.io/ent/dialect/sql"
	"github.com/wenerme/go-miniquery/zzverif/sx"
)

// ---- C26: casts

// inLists marks the elements of lists.
func inLists(n *rn, in bool, out map[*rn]bool) {
	if in {
		out[n] = true
	}
	for _, k := range n.kids {
		inLists(k, in || n.k == "arr", out)
	}
}

// castsAs asserts that the casts are the ones the configuration asks for.
func castsAs(r *eres, ref *rn, c entCfg) {
	var phs []tok
	for i, t := range r.ts {
		switch t.k {
		case "ph":
			phs = append(phs, t)
		case "word":
			is := i >= 1 && r.ts[i-1].s == "IS" || i >= 2 && r.ts[i-1].s == "NOT" && r.ts[i-2].s == "IS"
			if t.s == "NULL" && !is {
				phs = append(phs, tok{k: "null"})
			}
		}
	}
	lits := literals(ref, false, nil)
	if len(phs) > len(lits) {
		lits = literals(ref, true, nil)
	}
	if len(phs) != len(lits) { // C16 decides whether that is right
		sx.Reach("other")
		return
	}
	list := map[*rn]bool{}
	inLists(ref, false, list)
	for i, l := range lits {
		t := phs[i]
		if c.dialect != dialect.Postgres || c.noCast {
			sx.Assert(t.s == "", "cast that is not wanted: "+r.sql)
			continue
		}
		switch l.k {
		case "int":
			if !list[l] {
				sx.Assert(castOf(t.s) == "int", "integer without cast: "+r.sql)
			}
			fits := sx.Or(l.n == int(int32(l.n)), t.s != "INT" && t.s != "INTEGER")
			sx.Assert(fits, "integer does not fit its cast: "+r.sql)
		case "bool":
			if !list[l] {
				sx.Assert(castOf(t.s) == "bool", "bool without cast: "+r.sql)
			}
		default:
			sx.Assert(t.s == "", "cast of a literal that has none: "+r.sql)
		}
	}
	sx.Reach("casts")
}

// C26_Lit: one literal at every place.
func C26_Lit() {
	p := entPlaces[sx.Choice(len(entPlaces))]
	t, l := anyLit()
	c := pickCfg(8)
	r := entSQL(p.pre+t+p.post, c)
	sx.Assert(r.err == nil, "query refused")
	sx.Obs(r.sql)
	ref, _ := refParse(p.pre + "99" + p.post)
	setLit(ref, l)
	castsAs(r, ref, c)
}

// C26_Gen: generated queries.
func C26_Gen() {
	q := entGen(sx.Param("B", 2)).query()
	ref, _ := refParse(q)
	c := pickCfg(sx.Param("cfg", 8))
	r := entSQL(q, c)
	if r.err != nil { // C18 decides whether that is right
		return
	}
	sx.Obs(r.sql)
	castsAs(r, ref, c)
}

// ---- C18

// C18_With: a predicate that may not be convertible next to others.
func C18_With() {
	bad := []string{"f(a)", "a.b = 1", "has_edge(nope)", "has_edge(pets, has_edge(nope, a = 1))", "date()", "a = 1 or", "a->b", "has_edge(pets, a = 1 and f())", "a = 99999999999999999999", "a = 1)", "a = 1 and has_edge()"}
	i := sx.Choice(len(bad) + len(narrowEnt))
	q := ""
	if i < len(bad) {
		q = bad[i]
	} else {
		q = narrowEnt[i-len(bad)]
	}
	c := pickCfg(3)
	mb := entBuilder(q, c)
	p := entP(mb)
	sel := sql.Dialect(c.dialect).Select().From(sql.Table("users"))
	A, B := sql.EQ("a", 1), sql.EQ("b", 2)
	switch sx.Choice(9) {
	case 0:
		sel.Where(A).Where(p)
	case 1:
		sel.Where(p).Where(sql.Or(A, B))
	case 2:
		sel.Where(sql.Or(p, A))
	case 3:
		sel.Where(sql.Not(p))
	case 4:
		sel.Where(sql.And(A, p))
	case 5:
		sel.Where(sql.Or(A, sql.And(B, p)))
	case 6:
		sel.Where(sql.In("a", 1, 2, 3)).Where(A).Where(p)
	case 7:
		sel.Where(entP(entBuilder("a = 1 and b = 2", c))).Where(p)
	case 8:
		sel.Where(sql.P(func(b *sql.Builder) { b.Ident("a").WriteOp(sql.OpEQ).Arg(1).WriteString(" AND ").Join(mb) }))
	}
	sel.Query()
	failed := sel.Err() != nil || mb.Err() != nil
	if i < len(bad) {
		sx.Assert(failed, "query that cannot be converted accepted: "+q)
		sx.Reach("error")
	} else {
		sx.Assert(!failed, "query refused: "+q)
		sx.Reach("sql")
	}
}
