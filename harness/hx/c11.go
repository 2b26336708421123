package hx

import (
	"strings"

	"github.com/wenerme/go-miniquery/zzverif/sx"
	"gorm.io/gorm"
)

// ---- C11

// namePlaces are queries with a place for a name.
var namePlaces = []struct{ pre, post string }{
	{"", " is null"}, {"", " = 1"}, {"a = ", ""}, {"not ", ""}, {"date(", ") = 1"}, {"(", ") > b"}, {"a or ", " in [1]"}, {"", " between 1 and 2"}, {"a = ", " = b"}, {"date(a, ", ")"},
}

// mixCase is w with up to n letters, from the given one on, in either case.
func mixCase(w string, from, n int) string {
	s := ""
	for i := 0; i < len(w); i++ {
		if alpha(w[i]) && w[i] != '_' && i >= from && n > 0 {
			b := sx.Byte()
			sx.Assume(sx.Or(b == w[i]|32, b == w[i]&^32))
			s += string([]byte{b})
			n--
			continue
		}
		s += w[i : i+1]
	}
	return s
}

// convertible reports whether a query names only columns of the model.
func convertible(n *rn) bool {
	switch n.k {
	case "id":
		return gCol("users", n.s) != ""
	case "ref":
		return len(n.names) == 2 && gCol(gRel(n.names[0]), n.names[1]) != ""
	case "json":
		return false
	case "func":
		if n.s != "date" {
			return false
		}
	}
	for _, k := range n.kids {
		if !convertible(k) {
			return false
		}
	}
	return true
}

func gRel(s string) string {
	for k, t := range gRels {
		if sx.StrEq(k, s) {
			return t
		}
	}
	return ""
}

func c11(q string) {
	ref, ok := refParse(q)
	sx.Assume(ref != nil && ok)
	r := find(gormApply(gdb.Model(&gUser{}), sx.Choice(2), q))
	if !convertible(ref) {
		sx.Reach("refused")
		sx.Assert(r.err != nil, "query with unknown name accepted: "+q)
		return
	}
	sx.Reach("resolved")
	sx.Assert(r.err == nil, "query with known names refused: "+q)
	e := &gormRow{}
	sx.Assert(evalQ(ref, e).is(e.truth(r)), "name rendered as another column: "+r.sql)
}

var nameCands = []string{
	"id", "a", "b", "c", "full_name", "x_y", "created_at", "remark", "p_city", "org_id", "boss_id",
	"fullname", "renamed", "hidden", "createdat", "note", "city", "addr", "orgid", "org", "profile", "boss", "items", "users", "gbase", "bossid", "full", "fullnames", "created",
}

var refCands = []string{
	"Org.a", "Org.orgname", "Org.org_name", "Org.code", "Org.org_code", "Org.secret", "Org.top", "Org.top_id", "Org.b", "Org.full_name", "Profile.age", "Profile.b", "Profile.a", "Profile.userid", "Boss.fullname",
	"Boss.x_y", "Boss.hidden", "Boss.org", "Items.b", "Items.ownerid", "Items.age", "orgs.a", "users.a", "Addr.city", "Hidden.a", "a.a", "Org.Top.a", "Org.id.a", "id.Org", "Boss.Boss.a", "GBase.note",
}

// C11_Names: names of the model and similar ones in any letter case.
func C11_Names() {
	p := namePlaces[sx.Choice(sx.Param("P", 2))]
	s := nameCands[sx.Choice(len(nameCands))]
	n := sx.Param("N", 4)
	c11(p.pre + mixCase(s, n*sx.Choice((len(s)+n-1)/n), n) + p.post)
}

// C11_Refs: dotted names, the column in any letter case.
func C11_Refs() {
	p := namePlaces[sx.Choice(sx.Param("P", 2))]
	s := refCands[sx.Choice(len(refCands))]
	n := sx.Param("N", 3)
	c11(p.pre + mixCase(s, n*sx.Choice((len(s)+n-1)/n), n) + p.post)
}

// C11_Places: one known and one unknown name at every place.
func C11_Places() {
	p := namePlaces[sx.Choice(len(namePlaces))]
	s := []string{"FULLNAME", "x_y", "hidden", "Org", "Org.org_code", "Org.x_y", "Zzz.a", "zz", "renamed", "Profile.Age"}[sx.Choice(10)]
	c11(p.pre + s + p.post)
}

// ident is any identifier of 1..n characters.
func ident(n int) string {
	n = 1 + sx.Choice(n)
	s := ""
	for i := 0; i < n; i++ {
		b := sx.Byte()
		c := letter(b)
		if i > 0 {
			c = sx.Or(c, sx.Or(digit(b), b == '_'))
		}
		sx.Assume(c)
		s += string([]byte{b})
	}
	return s
}

// C11_Short: every short identifier.
func C11_Short() {
	n := sx.Param("N", 3)
	switch sx.Choice(5) {
	case 0:
		c11(ident(n) + " = 1")
	case 1:
		c11("Org." + ident(n) + " = 1")
	case 2:
		c11(ident(n) + ".a = 1")
	case 3:
		c11("Profile." + ident(n) + " = 1")
	default:
		c11("O" + ident(2) + "." + ident(2) + " = 1")
	}
}

// C11_Long: long names around those of the model.
func C11_Long() {
	n := []int{30, 31, 32, 63, 64, 65, 129, 257, 1025}[sx.Choice(9)]
	base := []string{"a", "full_name", "FullName", "Org", "id", "x"}[sx.Choice(6)]
	b := []byte(base)
	unit := []string{"_", "a", "X9_", base}[sx.Choice(4)]
	for len(b) < n {
		b = append(b, unit...)
	}
	b = b[:n]
	for _, i := range []int{len(base), n - 1} {
		b[i] = sx.Byte()
		sx.Assume(idByte(b[i]))
	}
	s := string(b)
	switch sx.Choice(3) {
	case 0:
		c11(s + " = 1")
	case 1:
		c11("Org." + s + " = 1")
	default:
		c11(s + ".a = 1")
	}
}

// ---- a model whose fields are named after other columns

type gSwap struct {
	ID    int `gorm:"primaryKey"`
	A     int `gorm:"column:b"`
	B     int `gorm:"column:a"`
	Xy    int `gorm:"column:XY"`
	Other int `gorm:"column:xy"`
	Name  int `gorm:"column:First"`
	First int `gorm:"column:name"`
}

func (gSwap) TableName() string { return "swaps" }

// C11_Swap: the database name wins over the field name.
func C11_Swap() {
	cands := []struct{ name, col string }{{"a", "a"}, {"b", "b"}, {"A", "b"}, {"B", "a"}, {"XY", "XY"}, {"xy", "xy"}, {"Xy", "XY"}, {"xY", "XY"}, {"Other", "xy"}, {"other", "xy"}, {"id", "id"},
		{"First", "First"}, {"name", "name"}, {"Name", "First"}, {"first", "name"}, {"NAME", "First"}, {"ID", "id"}, {"FIRST", "name"}, {"c", ""}, {"swaps", ""}}
	c := cands[sx.Choice(len(cands))]
	var out []gSwap
	r := gormSQL(gormApply(gdb.Model(&gSwap{}), sx.Choice(3), c.name+" = 1").Find(&out))
	if c.col == "" {
		sx.Assert(r.err != nil, "query with unknown name accepted: "+c.name)
		return
	}
	sx.Assert(r.err == nil, "query with known name refused: "+c.name)
	n := 0
	for i, t := range r.ts {
		if t.k == "id" && t.s != "swaps" && i > 0 {
			n++
			sx.Assert(t.s == c.col, "name rendered as another column: "+r.sql)
		}
	}
	sx.Assert(n == 1, "one column expected: "+r.sql)
}

// ---- C13

func c13(q string) {
	ref, ok := refParse(q)
	db := gormApply(gdb.Model(&gUser{}), sx.Choice(2), q)
	r := find(db)
	if q == "" {
		sx.Assert(r.err == nil && r.sel.where == nil, "empty query adds something")
		return
	}
	if r.err != nil {
		sx.Reach("error")
		sx.Obs("error")
		return
	}
	sx.Obs(r.sql)
	if blank(q) { // skipped in lists
		sx.Assert(r.sel.where == nil, "blank query adds a condition")
		return
	}
	sx.Assert(ref != nil, "text that is not a query accepted")
	sx.Assert(ok, "query with a number that does not fit accepted")
	sx.Assert(convertible(ref), "query that cannot be converted accepted: "+r.sql)
	sx.Reach("sql")
	sx.Assert(r.sel.where != nil, "no condition for a query: "+r.sql)
}

func blank(s string) bool { return strings.TrimSpace(s) == "" }

func C13_Bytes() { c13(sx.StrUpTo(sx.Param("L", 3))) }
func C13_Holes() { c13(holeText(sx.Param("K", 2))) }
func C13_Edit()  { c13(edited(sx.Param("D", 1), sx.Param("K", 1))) }

// C13_Gen: generated queries with unknown names, functions and references.
func C13_Gen() {
	g := &gen{left: sx.Param("B", 3)}
	g.names = [][]string{{"a", "b", "c"}, {"zz", "a"}, {"a", "zz"}, {"a", "b", "hidden"}}[sx.Choice(4)]
	g.refs = []string{"Org.a", "Org.zz", "Zz.a", "Org.Top.a", "Org.secret", "Org.a.a", "Org.a.zz.a"}
	g.funcs = []string{"date", "f", "count", "Date"}
	c13(g.query())
}

// funcNames are functions of databases that a query may not use.
var funcNames = []string{"datetime", "date_trunc", "date_add", "dates", "update", "now", "lower", "upper", "count", "max", "coalesce", "sleep", "pg_sleep", "version", "exists", "any", "cast", "concat", "length", "json_extract", "load_file", "user", "database", "has_edges", "edge", "has"}

// funcCall is a call of one of these, or of any short name.
func funcCall(n int) string {
	s := ""
	if c := sx.Choice(len(funcNames) + 1); c < len(funcNames) {
		s = funcNames[c]
	} else {
		s = ident(n)
	}
	a := []string{"()", "(a)", "(a, 1)", "('x')", "(b = 1)"}[sx.Choice(5)]
	p := []struct{ pre, post string }{{"", ""}, {"", " = 1"}, {"a = 1 or ", ""}, {"not ", " is null"}, {"date(", ") = 1"}}[sx.Choice(5)]
	return p.pre + s + a + p.post
}

// C13_Func: functions of every name.
func C13_Func() { c13(funcCall(sx.Param("N", 2))) }

// gormPool has valid queries, blanks and queries that must be refused.
var gormPool = []struct {
	q   string
	bad bool
}{
	{"a = 1", false}, {"a = 1 or b = 2", false}, {"not c", false}, {"Org.a > 2", false}, {"", false}, {" ", false},
	{"a = ", true}, {"zz = 1", true}, {"f(a)", true}, {"a->b = 1", true}, {"Org->a = 1", true}, {"datetime(a) = 1", true}, {"Zz.a = 1", true}, {"a) or (b", true}, {"a = 1) -- ", true}, {"Org.zz", true}, {"a = 99999999999999999999", true}, {"a ! b", true}, {"-- x", true}, {"a.b.c = 1", true}, {"Org.a.b = 1", true}, {"(a", true}, {"b)", true}, {"a = 'x", true}, {"x'", true},
}

// gormList picks up to n queries.
func gormList(n int) (qs []string, bad bool, want func(env) tri) {
	want = func(env) tri { return triBool(true) }
	n, odd := manyOf(n)
	for i := 0; i < n; i++ {
		p := gormPool[i%4]
		if odd < 0 || odd == i {
			p = gormPool[sx.Choice(len(gormPool))]
		}
		qs = append(qs, p.q)
		if p.bad {
			bad = true
			continue
		}
		if ref, _ := refParse(p.q); ref != nil {
			w := want
			want = func(e env) tri { return w(e).and(evalQ(ref, e)) }
		}
	}
	return
}

// C13_List: lists of queries, each way of applying them and each statement.
func C13_List() {
	qs, bad, want := gormList(sx.Param("N", 2))
	how := sx.Choice(4)
	hasBlank := false
	for _, q := range qs {
		if q == " " {
			hasBlank = true
		}
	}
	r := find(gormApply(gdb.Model(&gUser{}), how, qs...))
	if bad {
		sx.Reach("refused")
		sx.Assert(r.err != nil, "list with a query that cannot be converted accepted: "+r.sql)
		return
	}
	if hasBlank && (how == 0 || how == 2) && r.err != nil {
		return
	}
	sx.Assert(r.err == nil, "list of valid queries refused")
	sx.Reach("ok")
	sx.Obs(r.sql)
	e := &gormRow{}
	sx.Assert(want(e).is(e.truth(r)), "condition differs from the queries: "+r.sql)
}

// C13_Ops: every kind of statement carries the error.
func C13_Ops() {
	p := gormPool[sx.Choice(len(gormPool))]
	db := gdb.Model(&gUser{})
	at := sx.Choice(3)
	if at == 1 {
		db = db.Where("a = ?", 1)
	}
	db = gormApply(db, sx.Choice(4), p.q)
	if at == 2 {
		db = db.Where("a = ?", 1)
	}
	var tx *gorm.DB
	var n int64
	var m []map[string]any
	var one gUser
	op := sx.Choice(6)
	switch op {
	case 0:
		tx = db.Count(&n)
	case 1:
		tx = db.Delete(&gUser{})
	case 2:
		tx = db.Update("b", 3)
	case 3:
		tx = db.Updates(map[string]any{"b": 3})
	case 4:
		tx = db.Find(&m)
	case 5:
		tx = db.First(&one)
	}
	if p.bad {
		sx.Assert(tx.Error != nil, "statement without error: "+tx.Statement.SQL.String())
		sx.Assert(tx.Statement.SQL.Len() == 0, "statement built in spite of an error: "+tx.Statement.SQL.String())
	}
}

// C13_NoModel: without a model names cannot be resolved.
func C13_NoModel() {
	q := []string{"a = 1", "zz = 1", "a =", "Org.a", "1 = 1"}[sx.Choice(5)]
	db := gdb
	if sx.Choice(2) == 1 {
		db = db.Table("users")
	}
	if sx.Choice(2) == 1 {
		db = db.Model("text")
	}
	var m []map[string]any
	tx := gormApply(db, sx.Choice(4), q).Find(&m)
	sx.Assert(tx.Error != nil, "query without model accepted: "+tx.Statement.SQL.String())
}

// ---- C14

// gormCond adds a condition that is not a query.
func gormCond(db *gorm.DB, want *func(*gormRow) tri) *gorm.DB {
	x, y := int(sx.Byte()&7), int(sx.Byte()&7)
	col := func(c string, op string, n int) func(*gormRow) tri {
		return func(e *gormRow) tri { return triCmp(op, e.anyRow.name("."+c), val{n: n}) }
	}
	var f func(*gormRow) tri
	a, b := col("a", "eq", x), col("b", "eq", y)
	or := func(e *gormRow) tri { return a(e).or(b(e)) }
	switch sx.Choice(8) {
	case 0:
		return db
	case 1:
		db, f = db.Where("`users`.`a` = ?", x), a
	case 2:
		db, f = db.Where("`users`.`a` = ? OR `users`.`b` = ?", x, y), or
	case 3:
		db, f = db.Where(gdb.Where("`users`.`a` = ?", x).Or("`users`.`b` = ?", y)), or
	case 4:
		db, f = db.Where(&gUser{ID: x + 1}), col("id", "eq", x+1)
	case 5:
		db, f = db.Where(map[string]any{"a": x}), a
	case 6:
		db, f = db.Not("`users`.`a` = ?", x), func(e *gormRow) tri { return a(e).not() }
	case 7:
		db, f = db.Where("`users`.`a` = ? AND `users`.`b` = ?", x, y), func(e *gormRow) tri { return a(e).and(b(e)) }
	}
	w := *want
	*want = func(e *gormRow) tri { return w(e).and(f(e)) }
	return db
}

var narrowQueries = []string{"a = 1 or b = 2", "b > 3", "not a = 1 or b = 2", "a = 1 and b = 2 or c", "a = 1 || b = 2 && c", "(a) or (b)", "b = 1 or Org.a = 2", "a in [1, 2] or a is null", "not (a or b)", "a or b", "a = b", "c"}

// C14_And: conditions before and after, several queries.
func C14_And() {
	want := func(*gormRow) tri { return triBool(true) }
	db := gdb.Model(&gUser{})
	db = gormCond(db, &want)
	n, how := 1+sx.Choice(sx.Param("Q", 1)), sx.Choice(4)
	var qs []string
	for i := 0; i < n; i++ {
		q := narrowQueries[sx.Choice(len(narrowQueries))]
		qs = append(qs, q)
		ref, _ := refParse(q)
		w := want
		want = func(e *gormRow) tri { return w(e).and(evalQ(ref, e)) }
	}
	db = gormApply(db, how, qs...)
	db = gormCond(db, &want)
	r := find(db)
	sx.Assert(r.err == nil, "query refused")
	sx.Obs(r.sql)
	e := &gormRow{}
	sx.Assert(want(e).is(e.truth(r)), "condition is not the conjunction: "+r.sql)
}

// C14_Gen: generated queries between two conditions with or.
func C14_Gen() {
	g := &gen{left: sx.Param("B", 2), names: []string{"a", "b", "c", "FullName"}, refs: []string{"Org.a"}, funcs: []string{"date"}, noJSON: true, noArr: true}
	q := g.query()
	ref, _ := refParse(q)
	x := int(sx.Byte() & 7)
	db := gdb.Model(&gUser{}).Where("`users`.`a` = ? OR `users`.`b` = ?", x, x)
	db = gormApply(db, 0, q)
	db = gormApply(db, 1, "b = 1 or c = 2")
	r := find(db.Where("`users`.`c` = ? OR `users`.`b` = ?", x, x))
	sx.Assert(r.err == nil, "query refused")
	sx.Obs(r.sql)
	e := &gormRow{}
	col := func(c string, n int) tri { return triCmp("eq", e.anyRow.name("."+c), val{n: n}) }
	want := col("a", x).or(col("b", x)).and(evalQ(ref, e)).and(col("b", 1).or(col("c", 2))).and(col("c", x).or(col("b", x)))
	sx.Assert(want.is(e.truth(r)), "condition is not the conjunction: "+r.sql)
}

// dress adds other parts to a statement.
func dress(db *gorm.DB, c int) *gorm.DB {
	switch c {
	case 1:
		return db.Order("a desc")
	case 2:
		return db.Limit(3).Offset(2)
	case 3:
		return db.Select("a", "b")
	case 4:
		return db.Select("a", "b").Order("b").Limit(1)
	case 5:
		return db.Group("a")
	case 6:
		return db.Distinct("a")
	case 7:
		return db.Table("people")
	case 8:
		return db.Unscoped().Table("users AS u")
	}
	return db
}

func text(db *gorm.DB) (string, []any) {
	var out []gUser
	tx := db.Find(&out)
	sx.Assert(tx.Error == nil, "statement fails")
	return tx.Statement.SQL.String(), tx.Statement.Vars
}

// C14_Keep: the other parts of the statement stay.
func C14_Keep() {
	c, how := sx.Choice(9), sx.Choice(4)
	q := []string{"a = 1 or b = 2", "c", "a = 1"}[sx.Choice(3)]
	before := sx.Choice(2) == 0
	bare, bv := text(dress(gdb.Model(&gUser{}), c))
	var db *gorm.DB
	if before {
		db = gormApply(dress(gdb.Model(&gUser{}), c), how, q)
	} else {
		db = dress(gormApply(gdb.Model(&gUser{}), how, q), c)
	}
	with, wv := text(db)
	sx.Obs(with)
	// the condition is what has been added, at one place
	i := 0
	for i < len(bare) && bare[i] == with[i] {
		i++
	}
	j := 0
	for j < len(bare)-i && bare[len(bare)-1-j] == with[len(with)-1-j] {
		j++
	}
	sx.Assert(i+j == len(bare), "other parts of the statement changed: "+with)
	ts := lex(with, '`')
	w, nph := -1, 0
	for k, t := range ts {
		if t.k == "word" && t.s == "WHERE" {
			sx.Assert(w < 0, "two conditions: "+with)
			w = k
		}
	}
	sx.Assert(w >= 0, "no condition: "+with)
	for _, t := range ts {
		if t.k == "ph" {
			nph++
		}
	}
	sx.Assert(nph == len(wv), "placeholders and arguments differ in number")
	sx.Assert(len(wv) >= len(bv), "arguments lost")
}

// C14_Shared: a statement that several requests share.
func C14_Shared() {
	var want func(*gormRow) tri = func(*gormRow) tri { return triBool(true) }
	shared := gormCond(gdb.Model(&gUser{}), &want)
	shared = shared.Session(&gorm.Session{})
	sql0, v0 := text(shared)
	pool := []string{"a = 1 or b = 2", "Org.a = 1", "zz = 1", "a =", "", "Profile.zz = 1", "Org.a = Profile.b"}
	for i := sx.Param("R", 2); i > 0; i-- {
		q := pool[sx.Choice(len(pool))]
		how := sx.Choice(4)
		switch sx.Choice(3) {
		case 0:
			gormApply(shared, how, q).Find(&[]gUser{})
		case 1:
			gormApply(shared, how, q)
		case 2:
			gormApply(shared, how, q, "b = 2").Count(new(int64))
		}
		sx.Assert(shared.Error == nil, "error left in a shared statement")
		sql, v := text(shared)
		sx.Assert(sql == sql0, "shared statement changed: "+sql)
		sx.Assert(len(v) == len(v0), "arguments of a shared statement changed")
	}
	sql, _ := text(gdb.Model(&gUser{}))
	sx.Assert(sql == "SELECT * FROM `users`", "shared session changed: "+sql)
	// another model on the same session
	var ps []gProfile
	tx := gormApply(gdb.Model(&gProfile{}), sx.Choice(4), "age = 1").Find(&ps)
	sx.Assert(tx.Error == nil, "query on another model refused")
	g := gormSQL(tx)
	sx.Assert(g.sel.from[0].name == "profiles", "other table: "+g.sql)
}

// gNote is a model with soft delete and without relations.
type gNote struct {
	ID        int `gorm:"primaryKey"`
	A, B, C   int
	DeletedAt gorm.DeletedAt
}

func (gNote) TableName() string { return "notes" }

// C14_Soft: rows that are deleted stay out, for every kind of statement.
func C14_Soft() {
	x := int(sx.Byte() & 7)
	q := narrowQueries[sx.Choice(len(narrowQueries))]
	ref, _ := refParse(q)
	sx.Assume(!hasRef(ref))
	e := &anyRow{}
	want := evalQ(ref, e)
	del := e.name("deleted_at").null
	db := gdb.Model(&gNote{})
	where := sx.Choice(3)
	if where == 1 {
		db = db.Where("`a` = ? OR `b` = ?", x, x)
	}
	unscoped := sx.Choice(2) == 1
	if unscoped {
		db = db.Unscoped()
	}
	db = gormApply(db, sx.Choice(4), q)
	if where == 2 {
		db = db.Where("`a` = ? OR `b` = ?", x, x)
	}
	if where > 0 {
		want = want.and(triCmp("eq", e.name("a"), val{n: x}).or(triCmp("eq", e.name("b"), val{n: x})))
	}
	if !unscoped {
		want = want.and(triBool(del))
	}
	var ns []gNote
	var n int64
	var tx *gorm.DB
	op := sx.Choice(2)
	switch op {
	case 0:
		tx = db.Find(&ns)
	case 1:
		tx = db.Count(&n)
	}
	sx.Assert(tx.Error == nil, "query refused")
	text := tx.Statement.SQL.String()
	sx.Obs(text)
	ts := lex(text, '`')
	sx.Assert(lexOK(ts), "statement contains unexpected text: "+text)
	w := 0
	for i, t := range ts {
		if t.k == "word" && t.s == "WHERE" {
			w = i + 1
		}
	}
	sx.Assert(w > 0, "no condition: "+text)
	c, bad := parseSQL(ts[w:])
	sx.Assert(bad == "", "statement is not well formed: "+bad+": "+text)
	s := &sqlEnv{col: func(n []string) val {
		sx.Assert(len(n) == 1 || n[0] == "notes", "column of another table: "+text)
		return e.name(n[len(n)-1])
	}}
	for _, a := range tx.Statement.Vars {
		s.args = append(s.args, argVal(a))
	}
	sx.Assert(want.is(s.truth(c)), "condition is not the conjunction: "+text)
}

func hasRef(n *rn) bool {
	if n.k == "ref" {
		return true
	}
	for _, k := range n.kids {
		if hasRef(k) {
			return true
		}
	}
	return false
}

// ---- C15

func relsOf(n *rn, out map[string]int) {
	if n.k == "ref" {
		out[n.names[0]]++
	}
	for _, k := range n.kids {
		relsOf(k, out)
	}
}

// joinedOnce compares the joins of a statement with the relations expected.
func joinedOnce(r *gres, want map[string]int) {
	seen := map[string]bool{}
	for _, t := range r.sel.from[1:] {
		sx.Assert(!seen[t.alias], "relation joined twice: "+r.sql)
		seen[t.alias] = true
		sx.Assert(want[t.alias] > 0, "relation joined that is not named: "+r.sql)
		sx.Assert(t.name == gRels[t.alias], "relation joined with another table: "+r.sql)
		sx.Assert(t.on != nil, "join without condition: "+r.sql)
	}
	sx.Assert(len(seen) == len(want), "relation not joined: "+r.sql)
	sx.Assert(r.sel.from[0].name == "users", "other table: "+r.sql)
}

// C15_Gen: generated queries with relations.
func C15_Gen() {
	g := &gen{left: sx.Param("B", 3), names: []string{"a", "Org.a", "b", "Profile.b"}, refs: []string{"Org.a", "Boss.a", "Org.code", "Profile.age", "Items.b"}, funcs: []string{"date"}, noJSON: true, noArr: true, noStr: true}
	q := g.query()
	ref, ok := refParse(q)
	sx.Assert(ref != nil && ok, "generator")
	want := map[string]int{}
	relsOf(ref, want)
	db := gdb.Model(&gUser{})
	r := find(gormApply(db, sx.Choice(2), q))
	sx.Assert(r.err == nil, "query refused: "+q)
	sx.Obs(r.sql)
	joinedOnce(r, want)
	e := &gormRow{lone: map[string]bool{}}
	sx.Assert(evalQ(ref, e).is(e.truth(r)), "condition differs from the query: "+r.sql)
	selects(e, evalQ(ref, e), true, r)
}

var relQueries = []string{"Org.a = 1", "Org.a = Org.id", "b = Profile.b", "id = 1", "Boss.a > Boss.b and a", "Org.a in [1] or Profile.age is null or Org.org_code = 2", "Items.b = 1 or b = 2", "Boss.id = Org.id"}

// C15_Joins: several queries, relations joined before or after.
func C15_Joins() {
	want := map[string]int{}
	inner := false
	join := func(db *gorm.DB) *gorm.DB {
		switch c := sx.Choice(5); c {
		case 1, 2:
			n := []string{"Org", "Boss"}[c-1]
			want[n]++
			return db.Joins(n)
		case 3:
			want["Org"]++
			inner = true
			return db.InnerJoins("Org")
		case 4:
			want["Org"]++
			want["Profile"]++
			return db.Joins("Org").Joins("Profile")
		}
		return db
	}
	db := join(gdb.Model(&gUser{}))
	e := &gormRow{lone: map[string]bool{}}
	cond := triBool(true)
	var qs []string
	for n := 1 + sx.Choice(sx.Param("Q", 2)); n > 0; n-- {
		q := relQueries[sx.Choice(len(relQueries))]
		ref, _ := refParse(q)
		relsOf(ref, want)
		qs = append(qs, q)
		cond = cond.and(evalQ(ref, e))
	}
	db = gormApply(db, sx.Choice(4), qs...)
	if sx.Param("after", 0) == 1 {
		db = join(db)
	}
	r := find(db)
	sx.Assert(r.err == nil, "query refused")
	sx.Obs(r.sql)
	joinedOnce(r, want)
	sx.Assert(cond.is(e.truth(r)), "condition differs from the queries: "+r.sql)
	if inner {
		selects(e, cond, !e.missing("Org"), r)
	} else {
		selects(e, cond, true, r)
	}
}

// selects: the statement selects a row exactly when the condition holds and
// the joins asked for keep it.
func selects(e *gormRow, cond tri, kept bool, r *gres) {
	inner := false
	for _, t := range r.sel.from[1:] {
		inner = inner || t.inner
	}
	if !inner && kept { // decided by the condition alone
		return
	}
	got := e.truth(r)
	sx.Assert(triBool(sx.And(kept, cond.t)).is(boolTv(sx.And(e.kept(r), sx.And(!got.u, got.t)))), "row without related row dropped: "+r.sql)
}
