package hx

import "github.com/wenerme/go-miniquery/zzverif/sx"

// ---- SQL text: tokens, expressions and their evaluation

type tok struct {
	k string // id (quoted name), word, num, ph (placeholder), op, bad
	s string
	n int // number of a placeholder, from 0; s is its cast
}

func upper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

func alpha(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }
func num(c byte) bool   { return c >= '0' && c <= '9' }

// castOf is the kind of literal that a cast is for.
func castOf(w string) string {
	switch w {
	case "INT", "INTEGER", "BIGINT":
		return "int"
	case "BOOL", "BOOLEAN":
		return "bool"
	case "TEXT":
		return "str"
	}
	return ""
}

// lex splits SQL text. quote is the quote character of names. Text that is
// none of quoted names, words, numbers, placeholders and punctuation gives a
// bad token.
func lex(s string, quote byte) []tok {
	var r []tok
	nph := 0
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ':
			i++
		case c == quote:
			j := i + 1
			for j < len(s) && s[j] != quote {
				j++
			}
			if j >= len(s) || j == i+1 {
				return append(r, tok{k: "bad", s: s[i:]})
			}
			r = append(r, tok{k: "id", s: s[i+1 : j]})
			i = j + 1
		case alpha(c):
			j := i
			for j < len(s) && (alpha(s[j]) || num(s[j])) {
				j++
			}
			r = append(r, tok{k: "word", s: upper(s[i:j])})
			i = j
		case num(c):
			j, n := i, 0
			for j < len(s) && num(s[j]) {
				n = n*10 + int(s[j]-'0')
				j++
			}
			r = append(r, tok{k: "num", s: s[i:j], n: n})
			i = j
		case c == '?':
			r = append(r, tok{k: "ph", n: nph})
			nph++
			i++
		case c == '$':
			j, n := i+1, 0
			for j < len(s) && num(s[j]) {
				n = n*10 + int(s[j]-'0')
				j++
			}
			if n == 0 {
				return append(r, tok{k: "bad", s: s[i:]})
			}
			r = append(r, tok{k: "ph", n: n - 1})
			i = j
			// cast
			if i+1 < len(s) && s[i] == ':' && s[i+1] == ':' {
				i += 2
				j = i
				for j < len(s) && alpha(s[j]) {
					j++
				}
				w := upper(s[i:j])
				if castOf(w) == "" {
					return append(r, tok{k: "bad", s: s[i:]})
				}
				r[len(r)-1].s = w
				i = j
			}
		default:
			op := s[i : i+1]
			if i+1 < len(s) {
				switch s[i : i+2] {
				case "<=", ">=", "<>", "!=":
					op = s[i : i+2]
				}
			}
			switch op {
			case "(", ")", ",", ".", "=", "<", ">", "<=", ">=", "<>", "!=", "*":
			default:
				return append(r, tok{k: "bad", s: s[i:]})
			}
			r = append(r, tok{k: "op", s: op})
			i += len(op)
		}
	}
	return r
}

func lexOK(ts []tok) bool { return len(ts) == 0 || ts[len(ts)-1].k != "bad" }

// sn is an SQL expression or select.
type sn struct {
	k     string // col num ph null true false not and or cmp in insub exists between is fn list sel
	op    string
	neg   bool
	n     int
	names []string // column: [table] name; function: name
	kids  []*sn
	sel   *ssel
}

type stab struct {
	name, alias string
	on          *sn
	inner       bool // rows without a partner are dropped
}

type ssel struct {
	cols  []*sn
	from  []stab
	where *sn
}

type sparse struct {
	ts  []tok
	i   int
	bad string
}

func (p *sparse) fail(m string) *sn {
	if p.bad == "" {
		p.bad = m
	}
	return &sn{k: "null"}
}

func (p *sparse) is(k, s string) bool {
	return p.i < len(p.ts) && p.ts[p.i].k == k && p.ts[p.i].s == s
}

func (p *sparse) word(s string) bool {
	if p.is("word", s) {
		p.i++
		return true
	}
	return false
}

func (p *sparse) op(s string) bool {
	if p.is("op", s) {
		p.i++
		return true
	}
	return false
}

// parseSQL parses a condition; bad tells why it is not well formed.
func parseSQL(ts []tok) (*sn, string) {
	if !lexOK(ts) {
		return nil, "unexpected text " + ts[len(ts)-1].s
	}
	p := &sparse{ts: ts}
	n := p.or()
	if p.bad == "" && p.i != len(ts) {
		p.bad = "text after the condition"
	}
	return n, p.bad
}

func (p *sparse) or() *sn {
	l := p.and()
	for p.bad == "" && p.word("OR") {
		l = &sn{k: "or", kids: []*sn{l, p.and()}}
	}
	return l
}

func (p *sparse) and() *sn {
	l := p.not()
	for p.bad == "" && p.word("AND") {
		l = &sn{k: "and", kids: []*sn{l, p.not()}}
	}
	return l
}

func (p *sparse) not() *sn {
	if p.word("NOT") {
		return &sn{k: "not", kids: []*sn{p.not()}}
	}
	return p.cmp()
}

var sqlCmp = map[string]string{"=": "eq", "<>": "neq", "!=": "neq", "<": "lt", "<=": "lte", ">": "gt", ">=": "gte"}

// cmp parses at most one comparison: databases disagree on how a chain of
// comparisons groups (or refuse it), so a chain needs parentheses. IS may
// follow a comparison.
func (p *sparse) cmp() *sn {
	l := p.primary()
	if p.bad != "" || p.i >= len(p.ts) {
		return l
	}
	t := p.ts[p.i]
	if t.k == "op" {
		if c := sqlCmp[t.s]; c != "" {
			p.i++
			l = &sn{k: "cmp", op: c, kids: []*sn{l, p.primary()}}
		}
	} else if t.k == "word" {
		st := p.i
		neg := p.word("NOT")
		switch {
		case p.word("LIKE"):
			op := "like"
			if neg {
				op = "not like"
			}
			l = &sn{k: "cmp", op: op, kids: []*sn{l, p.primary()}}
		case p.word("IN"):
			l = p.in(l, neg)
		case p.word("BETWEEN"):
			lo := p.primary()
			if !p.word("AND") {
				return p.fail("between without and")
			}
			l = &sn{k: "between", neg: neg, kids: []*sn{l, lo, p.primary()}}
		default:
			p.i = st
		}
	}
	if p.bad == "" && p.word("IS") {
		neg := p.word("NOT")
		op := "is "
		if neg {
			op = "is not "
		}
		switch {
		case p.word("NULL"):
			op += "null"
		case p.word("TRUE"):
			op += "true"
		case p.word("FALSE"):
			op += "false"
		default:
			return p.fail("is without null, true or false")
		}
		l = &sn{k: "is", op: op, kids: []*sn{l}}
	}
	if p.bad == "" && p.i < len(p.ts) {
		t := p.ts[p.i]
		if t.k == "op" && sqlCmp[t.s] != "" || t.k == "word" && (t.s == "IS" || t.s == "LIKE" || t.s == "IN" || t.s == "BETWEEN" || t.s == "NOT") {
			return p.fail("chain of comparisons without parentheses")
		}
	}
	return l
}

func (p *sparse) in(l *sn, neg bool) *sn {
	if !p.op("(") {
		return p.fail("in without list")
	}
	if p.is("word", "SELECT") {
		s := p.sel()
		if !p.op(")") {
			return p.fail("subquery not closed")
		}
		return &sn{k: "insub", neg: neg, kids: []*sn{l}, sel: s}
	}
	n := &sn{k: "in", neg: neg, kids: []*sn{l}}
	if p.op(")") {
		return p.fail("empty list")
	}
	for {
		n.kids = append(n.kids, p.primary())
		if p.bad != "" {
			return n
		}
		if p.op(")") {
			return n
		}
		if !p.op(",") {
			return p.fail("list not closed")
		}
	}
}

func (p *sparse) primary() *sn {
	if p.i >= len(p.ts) {
		return p.fail("operand missing")
	}
	t := p.ts[p.i]
	switch t.k {
	case "ph":
		p.i++
		return &sn{k: "ph", n: t.n}
	case "num":
		p.i++
		return &sn{k: "num", n: t.n}
	case "id":
		return p.col()
	case "op":
		if p.op("(") {
			n := p.or()
			if p.bad == "" && p.is("op", ",") { // row value
				n = &sn{k: "list", kids: []*sn{n}}
				for p.op(",") && p.bad == "" {
					n.kids = append(n.kids, p.or())
				}
			}
			if p.bad == "" && !p.op(")") {
				return p.fail("parentheses not closed")
			}
			return n
		}
	case "word":
		p.i++
		switch t.s {
		case "NULL":
			return &sn{k: "null"}
		case "TRUE":
			return &sn{k: "num", n: 1}
		case "FALSE":
			return &sn{k: "num", n: 0}
		case "EXISTS":
			if !p.op("(") {
				return p.fail("exists without subquery")
			}
			s := p.sel()
			if !p.op(")") {
				return p.fail("subquery not closed")
			}
			return &sn{k: "exists", sel: s}
		case "NOT":
			p.i--
			return p.fail("not inside a comparison")
		case "DATE":
			n := &sn{k: "fn", names: []string{t.s}}
			if !p.op("(") {
				return p.fail("function without arguments")
			}
			if p.op(")") {
				return n
			}
			for {
				n.kids = append(n.kids, p.or())
				if p.bad != "" || p.op(")") {
					return n
				}
				if !p.op(",") {
					return p.fail("arguments not closed")
				}
			}
		}
		return p.fail("unexpected word " + t.s)
	}
	return p.fail("unexpected " + t.s)
}

func (p *sparse) col() *sn {
	n := &sn{k: "col"}
	for {
		if p.i >= len(p.ts) || p.ts[p.i].k != "id" {
			return p.fail("name expected")
		}
		n.names = append(n.names, p.ts[p.i].s)
		p.i++
		if !p.op(".") {
			return n
		}
	}
}

func (p *sparse) table() stab {
	c := p.col()
	if p.bad != "" || len(c.names) != 1 {
		p.fail("table name")
		return stab{}
	}
	t := stab{name: c.names[0], alias: c.names[0]}
	p.word("AS")
	if p.i < len(p.ts) && p.ts[p.i].k == "id" {
		t.alias = p.ts[p.i].s
		p.i++
	}
	return t
}

// sel parses SELECT cols FROM t [AS a] {[LEFT|INNER] JOIN t [a] ON cond} [WHERE cond].
func (p *sparse) sel() *ssel {
	s := &ssel{}
	if !p.word("SELECT") {
		p.fail("select expected")
		return s
	}
	for {
		if p.op("*") || p.i < len(p.ts) && p.ts[p.i].k == "num" && p.op1() {
			break
		}
		s.cols = append(s.cols, p.col())
		if p.bad != "" {
			return s
		}
		if p.word("AS") {
			p.col()
		}
		if !p.op(",") {
			break
		}
	}
	if !p.word("FROM") {
		p.fail("from expected")
		return s
	}
	s.from = append(s.from, p.table())
	for p.bad == "" {
		left := p.word("LEFT")
		p.word("INNER")
		if !p.word("JOIN") {
			break
		}
		t := p.table()
		t.inner = !left
		if !p.word("ON") {
			p.fail("join without on")
			return s
		}
		t.on = p.or()
		s.from = append(s.from, t)
	}
	if p.bad == "" && p.word("WHERE") {
		s.where = p.or()
	}
	return s
}

func (p *sparse) op1() bool {
	p.i++
	return true
}

// ---- evaluation

// sqlEnv evaluates SQL expressions.
type sqlEnv struct {
	args  []val                // scalar arguments
	list  map[int][]val        // arguments that are lists
	col   func(n []string) val // columns of the outermost row
	db    map[string][]*row    // tables for subqueries
	scope []frameRow
}

type frameRow struct {
	alias string
	r     *row
	level int
}

func (e *sqlEnv) truth(n *sn) t3 { return tv(e.eval(n)) }

func (e *sqlEnv) eval(n *sn) val {
	switch n.k {
	case "num":
		return val{n: n.n}
	case "null":
		return val{null: true}
	case "ph":
		if l, ok := e.list[n.n]; ok {
			return callFn(l)
		}
		sx.Assert(n.n < len(e.args), "placeholder without argument")
		return e.args[n.n]
	case "col":
		return e.column(n.names)
	case "not":
		return ofTv(not3(e.truth(n.kids[0])))
	case "and":
		return ofTv(and3(e.truth(n.kids[0]), e.truth(n.kids[1])))
	case "or":
		return ofTv(or3(e.truth(n.kids[0]), e.truth(n.kids[1])))
	case "cmp":
		return ofTv(cmp3(n.op, e.eval(n.kids[0]), e.eval(n.kids[1])))
	case "is":
		return ofTv(isOp(n.op, e.eval(n.kids[0])))
	case "between":
		l, lo, hi := e.eval(n.kids[0]), e.eval(n.kids[1]), e.eval(n.kids[2])
		t := and3(cmp3("gte", l, lo), cmp3("lte", l, hi))
		if n.neg {
			t = not3(t)
		}
		return ofTv(t)
	case "in":
		l := e.eval(n.kids[0])
		var list []val
		for _, k := range n.kids[1:] {
			if k.k == "ph" {
				if vs, ok := e.list[k.n]; ok {
					list = append(list, vs...)
					continue
				}
			}
			list = append(list, e.eval(k))
		}
		t := in3(l, list)
		if n.neg {
			t = not3(t)
		}
		return ofTv(t)
	case "list":
		var list []val
		for _, k := range n.kids {
			list = append(list, e.eval(k))
		}
		return callFn(list)
	case "fn":
		var args []val
		for _, k := range n.kids {
			args = append(args, e.eval(k))
		}
		return callFn(args)
	case "exists":
		t := boolTv(false)
		e.rows(n.sel, func(c t3) {
			t = or3(t, boolTv(c.isT()))
		})
		return ofTv(t)
	case "insub":
		l := e.eval(n.kids[0])
		t := boolTv(false)
		sx.Assert(len(n.sel.cols) == 1, "subquery with one column expected")
		e.rows(n.sel, func(c t3) {
			// a row that is not selected does not take part
			m := cmp3("eq", l, e.eval(n.sel.cols[0]))
			t = or3(t, t3{sx.And(m.u, c.isT()), sx.And(m.t, c.isT())})
		})
		if n.neg {
			t = not3(t)
		}
		return ofTv(t)
	}
	sx.Assert(false, "cannot evaluate sql "+n.k)
	return val{}
}

// rows calls f with the condition for every combination of rows of a select.
func (e *sqlEnv) rows(s *ssel, f func(t3)) {
	level := 1
	if len(e.scope) > 0 {
		level = e.scope[len(e.scope)-1].level + 1
	}
	base := len(e.scope)
	var rec func(i int, c t3)
	rec = func(i int, c t3) {
		if i == len(s.from) {
			if s.where != nil {
				c = and3(c, e.truth(s.where))
			}
			f(c)
			return
		}
		t := s.from[i]
		rows, ok := e.db[t.name]
		sx.Assert(ok, "unknown table "+t.name)
		for _, r := range rows {
			e.scope = append(e.scope[:base+i], frameRow{t.alias, r, level})
			d := c
			if t.on != nil {
				d = and3(c, e.truth(t.on))
			}
			rec(i+1, d)
		}
		e.scope = e.scope[:base+i]
	}
	rec(0, boolTv(true))
	e.scope = e.scope[:base]
}

// column resolves a name: innermost select first, then the outer row.
func (e *sqlEnv) column(names []string) val {
	if len(names) == 2 {
		for i := len(e.scope) - 1; i >= 0; i-- {
			if e.scope[i].alias == names[0] {
				return e.scope[i].r.name(names[1])
			}
		}
		return e.col(names)
	}
	sx.Assert(len(names) == 1, "qualified name")
	for i := len(e.scope) - 1; i >= 0; {
		lv := e.scope[i].level
		found := -1
		for ; i >= 0 && e.scope[i].level == lv; i-- {
			if e.scope[i].r.has(names[0]) {
				sx.Assert(found < 0, "ambiguous column "+names[0])
				found = i
			}
		}
		if found >= 0 {
			return e.scope[found].r.name(names[0])
		}
	}
	return e.col(names)
}

func (r *row) has(s string) bool {
	for _, n := range r.names {
		if n == s {
			return true
		}
	}
	return false
}
