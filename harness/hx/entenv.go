package hx

import (
	"database/sql/driver"

	"entgo.io/ent/dialect"
	"entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"github.com/wenerme/go-miniquery/entmq"
	"github.com/wenerme/go-miniquery/zzverif/sx"
)

// ---- schema graph

// entIDs are the id columns of the tables.
var entIDs = map[string]string{"users": "id", "pets": "pet_id", "groups": "gid", "cards": "card_no"}

func entNode(typ, table string) *sqlgraph.Node {
	return &sqlgraph.Node{NodeSpec: sqlgraph.NodeSpec{Table: table, ID: &sqlgraph.FieldSpec{Column: entIDs[table]}}, Type: typ}
}

var entGraph = func() *sqlgraph.Schema {
	g := &sqlgraph.Schema{Nodes: []*sqlgraph.Node{entNode("User", "users"), entNode("Pet", "pets"), entNode("Group", "groups"), entNode("Card", "cards")}}
	add := func(name string, rel sqlgraph.Rel, inv bool, table string, from, to string, cols ...string) {
		g.MustAddE(name, &sqlgraph.EdgeSpec{Rel: rel, Inverse: inv, Table: table, Columns: cols}, from, to)
	}
	add("pets", sqlgraph.O2M, false, "pets", "User", "Pet", "owner_id")
	add("owner", sqlgraph.M2O, true, "pets", "Pet", "User", "owner_id")
	add("joinedGroups", sqlgraph.M2M, false, "user_groups", "User", "Group", "user_id", "group_id")
	add("members", sqlgraph.M2M, true, "user_groups", "Group", "User", "user_id", "group_id")
	add("card", sqlgraph.O2O, false, "cards", "User", "Card", "holder_id")
	add("holder", sqlgraph.O2O, true, "cards", "Card", "User", "holder_id")
	add("children", sqlgraph.O2M, false, "users", "User", "User", "parent_id")
	add("parent", sqlgraph.M2O, true, "users", "User", "User", "parent_id")
	add("pen_friends", sqlgraph.M2M, false, "user_friends", "User", "User", "user_id", "friend_id")
	// other edges with the names of edges of users
	add("card", sqlgraph.O2O, false, "cards", "Pet", "Card", "tag_of")
	add("parent", sqlgraph.M2O, true, "groups", "Group", "Group", "super_gid")
	return g
}()

// entEdges says how tables are related, as a user of the schema knows it.
var entEdges = map[string][]struct{ n, t string }{
	"users":  {{"pets", "pets"}, {"joinedGroups", "groups"}, {"card", "cards"}, {"children", "users"}, {"parent", "users"}, {"pen_friends", "users"}},
	"pets":   {{"owner", "users"}, {"card", "cards"}},
	"groups": {{"members", "users"}, {"parent", "groups"}},
	"cards":  {{"holder", "users"}},
}

func edgeTo(table, edge string) string {
	for _, e := range entEdges[table] {
		if sx.StrEq(e.n, edge) {
			return e.t
		}
	}
	return ""
}

// ---- running the ent backend

type entCfg struct {
	dialect string
	noCast  bool
	via     int // 0: the builder alone, 1: predicate of a selector
}

func (c entCfg) quote() byte {
	if c.dialect == dialect.Postgres {
		return '"'
	}
	return '`'
}

// pickCfg picks among n configurations.
func pickCfg(n int) entCfg {
	c := sx.Choice(n)
	return []entCfg{{dialect.Postgres, true, 0}, {dialect.MySQL, false, 1}, {dialect.Postgres, false, 1}, {dialect.SQLite, true, 0}, {dialect.Postgres, true, 1}, {dialect.Postgres, false, 0}, {dialect.MySQL, true, 0}, {dialect.SQLite, false, 1}}[c]
}

func entBuilder(q string, c entCfg) *entmq.MiniQLToEntSQLBuilder {
	return &entmq.MiniQLToEntSQLBuilder{QueryString: q, DisableTypeCasting: c.noCast, Node: entGraph.Nodes[0], Graph: entGraph}
}

type edgeOf = struct {
	To   *sqlgraph.Node
	Spec *sqlgraph.EdgeSpec
}

type eres struct {
	gres
	where *sn
}

func entP(mb *entmq.MiniQLToEntSQLBuilder) *sql.Predicate {
	return sql.P(func(b *sql.Builder) { b.Join(mb) })
}

// entSQL converts a query.
func entSQL(q string, c entCfg) *eres {
	mb := entBuilder(q, c)
	r := &eres{}
	if c.via == 0 {
		mb.SetDialect(c.dialect)
		r.sql, r.vars = mb.Query()
		r.err = mb.Err()
		if r.err != nil {
			return r
		}
		r.ts = lex(r.sql, c.quote())
		sx.Assert(lexOK(r.ts), "predicate contains unexpected text: "+r.sql)
		n, bad := parseSQL(r.ts)
		sx.Assert(bad == "", "predicate is not well formed: "+bad+": "+r.sql)
		r.where = n
		return r
	}
	r.selector(sql.Dialect(c.dialect).Select().From(sql.Table("users")).Where(entP(mb)), c)
	return r
}

func (r *eres) selector(s *sql.Selector, c entCfg) {
	r.sql, r.vars = s.Query()
	r.err = s.Err()
	if r.err != nil {
		return
	}
	r.ts = lex(r.sql, c.quote())
	sx.Assert(lexOK(r.ts), "statement contains unexpected text: "+r.sql)
	p := &sparse{ts: r.ts}
	r.sel = p.sel()
	sx.Assert(p.bad == "", "statement is not well formed: "+p.bad+": "+r.sql)
	sx.Assert(p.i == len(r.ts), "text after the condition: "+r.sql)
	r.where = r.sel.where
}

// plainArg unwraps arguments that carry a cast.
func plainArg(a any) any {
	if v, ok := a.(driver.Valuer); ok {
		x, err := v.Value()
		sx.Assert(err == nil, "argument without value")
		return x
	}
	return a
}

// ---- rows

// entDB is a small database with any content.
type entDB struct {
	t map[string][]*row
}

var entCols = map[string][]string{
	"users": {"id", "a", "b", "c", "full_name", "parent_id"}, "pets": {"pet_id", "a", "b", "c", "full_name", "owner_id"}, "groups": {"gid", "a", "b", "c", "full_name", "super_gid"},
	"cards": {"card_no", "a", "b", "c", "full_name", "holder_id", "tag_of"}, "user_groups": {"user_id", "group_id"}, "user_friends": {"user_id", "friend_id"},
}

// table makes the rows of a table on first use.
func (d *entDB) table(t string) []*row {
	if r, ok := d.t[t]; ok {
		return r
	}
	n := sx.Param("rows", 2)
	if t == "users" {
		n = 2
	}
	var rs []*row
	for i := 0; i < n; i++ {
		r := newRow(entCols[t]...)
		for j, c := range r.names {
			switch c {
			case entIDs[t], "user_id", "group_id", "friend_id":
				r.vals[j].null = false
			}
		}
		rs = append(rs, r)
	}
	d.t[t] = rs
	return rs
}

// in says whether v is the id of a row.
func (d *entDB) in(v val, table string) bool {
	r := false
	for _, x := range d.table(table) {
		r = sx.Or(r, x.name(entIDs[table]).n == v.n)
	}
	return r
}

// references assumes that foreign keys refer to rows.
func (d *entDB) references() {
	ref := func(t, c, to string) {
		if _, ok := d.t[t]; !ok {
			return
		}
		for _, r := range d.t[t] {
			v := r.name(c)
			sx.Assume(sx.Or(v.null, d.in(v, to)))
		}
	}
	ref("users", "parent_id", "users")
	ref("pets", "owner_id", "users")
	ref("cards", "holder_id", "users")
	if _, ok := d.t["cards"]; ok && d.t["pets"] != nil {
		ref("cards", "tag_of", "pets")
	}
	ref("groups", "super_gid", "groups")
	ref("user_groups", "user_id", "users")
	ref("user_groups", "group_id", "groups")
	ref("user_friends", "user_id", "users")
	ref("user_friends", "friend_id", "users")
}

// entRow is a row of the database as the reference sees it.
type entRow struct {
	db    *entDB
	table string
	r     *row
}

var entNames = map[string]string{"fullName": "full_name", "FullName": "full_name", "ID": "id", "A": "a"}

func (e *entRow) name(s string) val {
	if n, ok := entNames[s]; ok {
		s = n
	}
	return e.r.name(s)
}

func (e *entRow) ref([]string) val {
	sx.Assert(false, "dotted name converted")
	return val{}
}

func eqT(a, b val) bool { return sx.And(sx.And(!a.null, !b.null), a.n == b.n) }

func (e *entRow) fn(name string, n *rn) val {
	if name == "date" {
		return callFn([]val{evalV(n.kids[0], e)})
	}
	sx.Assert(name == "has_edge", "function converted: "+name)
	edge := n.kids[0].s
	to := edgeTo(e.table, edge)
	sx.Assert(to != "", "unknown edge converted")
	id := e.r.name(entIDs[e.table])
	has := false
	through := func(jt, from, dest string, c bool, x *row) bool {
		r := false
		for _, j := range e.db.table(jt) {
			r = sx.Or(r, sx.And(eqT(j.name(from), id), eqT(j.name(dest), x.name(entIDs[to]))))
		}
		return sx.And(r, c)
	}
	for _, x := range e.db.table(to) {
		c := true
		if len(n.kids) == 2 {
			c = evalQ(n.kids[1], &entRow{e.db, to, x}).t
		}
		var rel bool
		switch edge {
		case "pets":
			rel = sx.And(eqT(x.name("owner_id"), id), c)
		case "owner":
			rel = sx.And(eqT(e.r.name("owner_id"), x.name(entIDs[to])), c)
		case "joinedGroups":
			rel = through("user_groups", "user_id", "group_id", c, x)
		case "members":
			rel = through("user_groups", "group_id", "user_id", c, x)
		case "card":
			col := "holder_id"
			if e.table == "pets" {
				col = "tag_of"
			}
			rel = sx.And(eqT(x.name(col), id), c)
		case "holder":
			rel = sx.And(eqT(e.r.name("holder_id"), x.name(entIDs[to])), c)
		case "children":
			rel = sx.And(eqT(x.name("parent_id"), id), c)
		case "parent":
			col := "parent_id"
			if e.table == "groups" {
				col = "super_gid"
			}
			rel = sx.And(eqT(e.r.name(col), x.name(entIDs[to])), c)
		case "pen_friends":
			rel = through("user_friends", "user_id", "friend_id", c, x)
		}
		has = sx.Or(has, rel)
	}
	return triBool(has).val()
}

// entTruth evaluates the converted condition for a row of users.
func entTruth(d *entDB, r *row, x *eres) t3 {
	if x.where == nil {
		return boolTv(true)
	}
	e := &sqlEnv{db: d.t}
	e.col = func(n []string) val {
		if len(n) == 2 {
			sx.Assert(n[0] == "users", "column of another table: "+n[0]+"."+n[1])
			return r.name(n[1])
		}
		return r.name(n[0])
	}
	for _, a := range x.vars {
		e.args = append(e.args, argVal(plainArg(a)))
	}
	return e.truth(x.where)
}

func newEntDB() (*entDB, *entRow) {
	d := &entDB{t: map[string][]*row{}}
	return d, &entRow{d, "users", d.table("users")[0]}
}
