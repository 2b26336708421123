package hx

import "github.com/wenerme/go-miniquery/zzverif/sx"

// ---- symbolic filler

// white is any white space character of the grammar.
func white() string {
	b := sx.Byte()
	sx.Assume(sx.Or(sx.Or(b == ' ', b == '\t'), sx.Or(b == '\n', b == '\r')))
	return string([]byte{b})
}

// comment is a comment with m arbitrary bytes (no line end in it).
func comment(m int) string {
	s := []string{"--", "//"}[sx.Choice(2)]
	for i := 0; i < m; i++ {
		b := sx.Byte()
		sx.Assume(sx.And(b != '\n', b != '\r'))
		s += string([]byte{b})
	}
	return s + []string{"\n", "\r", "\r\n"}[sx.Choice(3)]
}

// filler is 1..max pieces of white space or comments of up to m bytes.
func filler(max, m int) string {
	s := ""
	if sx.Param("long", 0) == 1 {
		return longFiller()
	}
	for n := 1 + sx.Choice(max); n > 0; n-- {
		if c := sx.Choice(m + 2); c == 0 {
			s += white()
		} else {
			s += comment(c - 1)
		}
	}
	return s
}

// longFiller is one long piece of white space or comment, or many short ones.
func longFiller() string {
	n := []int{17, 129, 1025}[sx.Choice(3)]
	unit := []string{" ", " \t\r\n", "-- ' \" and (\n\t"}[sx.Choice(3)]
	s := ""
	for len(s) < n {
		s += unit
	}
	if sx.Choice(2) == 1 {
		b := sx.Byte()
		sx.Assume(sx.And(b != '\n', b != '\r'))
		return "//" + oneLine(s) + string([]byte{b}) + "\n"
	}
	return s
}

// oneLine is s without line ends.
func oneLine(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] == '\n' || b[i] == '\r' {
			b[i] = ' '
		}
	}
	return string(b)
}

// anyCase is w with every letter in either case.
func anyCase(w string) string {
	s := ""
	for i := 0; i < len(w); i++ {
		b := sx.Byte()
		sx.Assume(sx.Or(b == w[i], b == w[i]-32))
		s += string([]byte{b})
	}
	return s
}

// ---- C03

type opSpell struct {
	words []string
	ci    []bool // letters of the word may have any case
	canon string
	kind  string
}

var t1, t2 = []bool{true}, []bool{true, true}

var opSpells = []opSpell{
	{[]string{">="}, nil, "gte", "cmp"}, {[]string{"<="}, nil, "lte", "cmp"}, {[]string{"=="}, nil, "eq", "cmp"},
	{[]string{"!="}, nil, "neq", "cmp"}, {[]string{"<>"}, nil, "neq", "cmp"}, {[]string{">"}, nil, "gt", "cmp"},
	{[]string{"<"}, nil, "lt", "cmp"}, {[]string{"="}, nil, "eq", "cmp"},
	{[]string{"gte"}, t1, "gte", "cmp"}, {[]string{"lte"}, t1, "lte", "cmp"}, {[]string{"gt"}, t1, "gt", "cmp"},
	{[]string{"lt"}, t1, "lt", "cmp"}, {[]string{"eq"}, t1, "eq", "cmp"}, {[]string{"neq"}, t1, "neq", "cmp"},
	{[]string{"like"}, t1, "like", "cmp"}, {[]string{"not", "like"}, t2, "not like", "cmp"},
	{[]string{"in"}, t1, "in", "in"}, {[]string{"not", "in"}, t2, "not in", "in"},
	{[]string{"between"}, []bool{false}, "between", "between"}, {[]string{"not", "between"}, []bool{true, false}, "not between", "between"},
	{[]string{"isnull"}, []bool{false}, "is null", "pred"}, {[]string{"notnull"}, []bool{false}, "is not null", "pred"},
	{[]string{"is", "null"}, nil, "is null", "pred"}, {[]string{"is", "true"}, nil, "is true", "pred"}, {[]string{"is", "false"}, nil, "is false", "pred"},
	{[]string{"is", "not", "null"}, nil, "is not null", "pred"}, {[]string{"is", "not", "true"}, nil, "is not true", "pred"},
	{[]string{"is", "not", "false"}, nil, "is not false", "pred"},
	{[]string{"and"}, t1, "and", "logic"}, {[]string{"or"}, t1, "or", "logic"}, {[]string{"&&"}, nil, "and", "logic"}, {[]string{"||"}, nil, "or", "logic"},
}

var operandA = &rn{k: "id", s: "a"}

// C03_Ops: every spelling, with symbolic letter case or symbolic filler.
func C03_Ops() {
	o := opSpells[sx.Choice(len(opSpells))]
	max, m := sx.Param("F", 1), sx.Param("M", 1)
	mode := sx.Choice(4) // 0 case, 1 filler between the words, 2 filler around, 3 no space around
	if mode == 1 {
		sx.Assume(len(o.words) > 1)
	}
	both := sx.Param("both", 0) == 1
	gap := 0 // 0: filler between all words
	if mode == 1 && len(o.words) > 2 && !both {
		gap = 1 + sx.Choice(len(o.words)-1)
	}
	text := ""
	for i, w := range o.words {
		if i > 0 {
			if mode == 1 && (gap == 0 || gap == i) {
				text += filler(max, m)
			} else {
				text += " "
			}
		}
		if o.ci != nil && o.ci[i] && (mode == 0 || both) {
			w = anyCase(w)
		}
		text += w
	}
	before, after := " ", " "
	if mode == 2 {
		before = filler(max, m)
		if sx.Choice(2) == 1 {
			before, after = after, before
		}
	}
	// operands of which neither merges with the operator
	type side struct {
		s string
		n *rn
	}
	ls := []side{{"a", operandA}, {"1", &rn{k: "int", n: 1}}, {"(a)", &rn{k: "paren", kids: []*rn{operandA}}}, {"'s'", &rn{k: "str", s: "s"}}}
	var l, r side
	if mode == 3 || o.kind == "in" || o.kind == "between" {
		l, r = ls[sx.Choice(len(ls))], ls[sx.Choice(len(ls))]
	} else if mode == 2 {
		c := sx.Choice(len(ls))
		l, r = ls[c], ls[(c+1)%len(ls)]
		if o.kind == "pred" {
			r = ls[0]
		}
	} else if o.kind != "pred" && sx.Choice(2) == 1 { // both operand orders
		l, r = ls[0], ls[1]
	} else {
		l, r = ls[1], ls[0]
	}
	if mode == 3 {
		sx.Assume(o.kind != "pred" && l.s != "a")
		before = ""
		if r.s != "a" || o.words[0][0] < 'a' {
			after = ""
		}
	}
	var want *rn
	q := l.s + before + text
	switch o.kind {
	case "cmp", "logic":
		q += after + r.s
		want = &rn{k: o.kind, op: o.canon, kids: []*rn{l.n, r.n}}
	case "in":
		sx.Assume(r.s == "1")
		q += after + "[1]"
		want = &rn{k: "cmp", op: o.canon, kids: []*rn{l.n, {k: "arr", kids: []*rn{r.n}}}}
	case "between":
		sx.Assume(r.s == "1" || r.s == "'s'")
		q += after + r.s + " and 2"
		want = &rn{k: "between", op: o.canon, kids: []*rn{l.n, r.n, {k: "int", n: 2}}}
	case "pred":
		sx.Assume(r.s == "a")
		q += after
		want = &rn{k: "pred", op: o.canon, kids: []*rn{l.n}}
	}
	if sx.Choice(2) == 1 { // in front of another condition
		if o.kind == "pred" && after == "" {
			q += " "
		}
		q += " and b"
		want = groupWith(want)
	}
	n := parse(q)
	sx.Assert(n != nil, "documented operator rejected")
	t := toRn(n)
	sx.Obs(t.show())
	sx.Assert(same(t, want, false), "operator "+o.canon+" not recognised")
	sx.Reach(o.canon)
}

// groupWith appends "and b".
func groupWith(n *rn) *rn {
	b := &rn{k: "id", s: "b"}
	if n.k == "logic" {
		return groupLogic([]*rn{n.kids[0], n.kids[1], b}, []string{n.op, "and"})
	}
	return &rn{k: "logic", op: "and", kids: []*rn{n, b}}
}

// ---- C04

type litPos struct {
	pre, post string
	at        func(n *rn) *rn
}

var litPoses = []litPos{
	{"", "", func(n *rn) *rn { return n }},
	{"a = ", "", func(n *rn) *rn { return n.kids[1] }},
	{"", " = a", func(n *rn) *rn { return n.kids[0] }},
	{"a in [", "]", func(n *rn) *rn { return n.kids[1].kids[0] }},
	{"a in ('x', ", ", 2)", func(n *rn) *rn { return n.kids[1].kids[1] }},
	{"f(a, ", ")", func(n *rn) *rn { return n.kids[1] }},
	{"a between ", " and 7", func(n *rn) *rn { return n.kids[1] }},
	{"a between 7 and ", " or b", func(n *rn) *rn { return n.kids[0].kids[2] }},
	{"a between [7, ", "]", func(n *rn) *rn { return n.kids[2] }},
	{"not (", ")", func(n *rn) *rn { return n.kids[0].kids[0] }},
	{"a like ", " and b", func(n *rn) *rn { return n.kids[0].kids[1] }},
}

func pickPos() litPos { return litPoses[sx.Choice(len(litPoses))] }

// utf8Str is any valid UTF-8 text of up to n bytes.
func utf8Str(n int) string {
	s := sx.StrUpTo(n)
	sx.Assume(string([]rune(s)) == s)
	return s
}

// shapes are texts that look like something else: # is any digit.
var shapes = []string{
	"", " ", "x ", " x", "20##-0#-1#", "20##-0#-1#T1#:2#:3#Z", "20##-01-02T03:04:05.##+08:00", "20##-01-02 1#:2#:00", "1#:2#", "#", "0#", "00", "-#", "+#", "#.#", "#e#", "0x#f", "1_0##", "########## ",
	"true", "false", "TRUE", "null", "NULL", "nil", "undefined", "?", "??", "x?", "$1", "$#", ":a", "@a", "@", "%#%", "_#", "#%", "\\%", "\\", "\\n", "\\'", "\\\"", "''", "\"\"", "it's", "\"x\"", "550e8400-e29b-41d4-a716-4466554400##",
	"a,b", "[1,#]", "(#)", "{}", "{a}", "{\"a\":#}", "now()", "NaN", "Inf", "1h#m", "--#", "-- x\n", "/*#*/", "//#", ";", "; drop table x", "a = #", "a and b", "not", "\t#", "\n#", "\r\n", "#\x00#", "é#", "日本#", "\ufeff#", "\u2028", "İ", "ﬁ", "e\u0301",
	"https://a.b/#?c=d&e=%20", "a@b.c", "192.168.0.#", "aGk=", "&lt;", "<#>", "`a`", "::int", "1::int", "a::text", "0", "1", "t", "f", "yes",
	"aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffff123#", "aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffaaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffaaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffaaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffaaaaaaaaaabbbbb#",
}

// litStr is the content of a string literal in quotes q.
func litStr(q byte) string {
	s := ""
	switch sx.Param("shape", 0) {
	case 0:
		s = utf8Str(sx.Param("L", 2))
	case 2:
		n := []int{31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 1000, 1025, 4097, 65537}[sx.Choice(17)]
		unit := []string{"a", "some words, 1 ", "\u4e2d\u6587", "it is 100% _\\ ?"}[sx.Choice(4)]
		b := []byte{sx.Byte()}
		for len(b) < n {
			b = append(b, unit...)
		}
		h := len(unit)*(len(b)/len(unit)/2) + 1
		b = append(b[:h:h], append([]byte{sx.Byte()}, b[h:]...)...)
		b = append(b, sx.Byte())
		sx.Assume(sx.And(b[0] < 0x80, sx.And(b[h] < 0x80, b[len(b)-1] < 0x80)))
		s = string(b)
		sx.Assume(sx.And(b[0] != q, sx.And(b[h] != q, b[len(b)-1] != q)))
		return s
	default:
		for _, c := range []byte(shapes[sx.Choice(len(shapes))]) {
			if c == '#' {
				c = sx.Byte()
				sx.Assume(digit(c))
			}
			s += string([]byte{c})
		}
	}
	for i := 0; i < len(s); i++ {
		sx.Assume(s[i] != q)
	}
	return s
}

// C04_Str: string literals with any content of up to L bytes.
func C04_Str() {
	p := pickPos()
	q := []string{"'", "\""}[sx.Choice(2)]
	s := litStr(q[0])
	n := parse(p.pre + q + s + q + p.post)
	sx.Assert(n != nil, "string literal rejected")
	l := p.at(toRn(n))
	sx.Obs(l.s)
	sx.Assert(sx.And(l.k == "str", sx.StrEq(l.s, s)), "string literal changed")
	sx.Reach("str")
}

// C04_Int: digit strings of 1..D digits, any digits.
func C04_Int() {
	p := pickPos()
	d := 1 + sx.Choice(sx.Param("D", 18))
	c04int(p, d, "")
}

// C04_Limit: 18 to 21 digit integers around the limits of the integer types.
func C04_Limit() {
	p := litPoses[1]
	pre := []string{"9223372036854775", "1844674407370955", "9999999999999999", "1000000000000000"}[sx.Choice(4)]
	c04int(p, 18+sx.Choice(4), pre[:sx.Param("fix", 14)])
}

// C04_Huge: integers of far too many digits.
func C04_Huge() {
	p := pickPos()
	n := []int{22, 25, 32, 38, 39, 64, 100, 257, 310, 1025}[sx.Choice(10)]
	pre := []byte{}
	for len(pre) < n-2 {
		pre = append(pre, "1844674407370955161600000000000000000001"[len(pre)%40])
	}
	if sx.Choice(2) == 1 {
		for i := 1; i < len(pre); i++ {
			pre[i] = '0'
		}
	}
	c04int(p, n, string(pre))
}

func c04int(p litPos, d int, pre string) {
	s := pre
	for i := len(pre); i < d; i++ {
		b := sx.Byte()
		if i == 0 {
			sx.Assume(sx.And(b >= '1', b <= '9'))
		} else {
			sx.Assume(digit(b))
		}
		s += string([]byte{b})
	}
	v, ok := decimal(s)
	n := parse(p.pre + s + p.post)
	if n == nil {
		sx.Assert(!ok, "integer rejected")
		sx.Reach("too big")
		sx.Obs("rejected")
		return
	}
	sx.Assert(ok, "integer out of range accepted")
	l := p.at(toRn(n))
	sx.Assert(sx.And(l.k == "int", l.n == v), "integer changed")
	sx.Reach("int")
}

// C04_Word: keywords and zero.
func C04_Word() {
	p := pickPos()
	ws := []string{"true", "false", "TRUE", "FALSE", "null", "NULL", "0"}
	i := sx.Choice(len(ws))
	n := parse(p.pre + ws[i] + p.post)
	sx.Assert(n != nil, "keyword literal rejected")
	l := p.at(toRn(n))
	sx.Obs(l.show())
	want := []*rn{{k: "bool", b: true}, {k: "bool"}, {k: "bool", b: true}, {k: "bool"}, {k: "null"}, {k: "null"}, {k: "int"}}[i]
	sx.Assert(same(l, want, false), "keyword literal changed")
}

// ---- C05

// bases are token sequences that cover every construct of the grammar. Tokens
// that the grammar glues together are one entry.
var bases = [][]string{
	{"a", "=", "1"}, {"1", ">=", "'s t'"}, {"a", "<>", "b"}, {"a", "not", "like", "\"x\""}, {"a", "GTE", "2"}, {"a", "in", "[", "1", ",", "2", "]"}, {"a", "not", "in", "(", "'x'", ",", "null", ",", ")"},
	{"a", "between", "1", "and", "2"}, {"a", "not", "between", "[", "1", ",", "2", "]"}, {"a", "is", "not", "null"}, {"a", "is", "true"}, {"a", "isnull"}, {"a", "notnull", "and", "b"},
	{"not", "a", "=", "1"}, {"(", "a", "or", "b", ")", "and", "not", "(", "c", ")"}, {"f(", "a", ",", "1", ",", ")"}, {"f(", ")"}, {"a.b", "<", "1"}, {"a->b", "=", "1"},
	{"a", "&&", "b", "||", "c"}, {"[", "1", ",", "'x'", "]", "=", "a"}, {"(", ")", "=", "a"}, {"has_edge(", "o", ",", "x", "=", "1", ")"}, {"date(", "a", ")", "=", "'2020-01-01'"},
	{"a", "is", "null", "or", "b", "is", "not", "false"}, {"a", "in", "[", "]"}, {"a", "lt", "b", "eq", "c"},
}

// C05_Fill: filler at one boundary of a base query.
func C05_Fill() {
	b := bases[sx.Choice(len(bases))]
	base, text := "", ""
	at := sx.Choice(len(b) + 1)
	at2 := -1
	if sx.Param("two", 0) == 1 {
		at2 = sx.Choice(len(b) + 1)
		sx.Assume(at2 > at)
	}
	f := func() string {
		s := filler(sx.Param("F", 1), sx.Param("M", 2))
		switch sx.Choice(3) { // with or without the plain space
		case 1:
			s = " " + s
		case 2:
			s += " "
		}
		return s
	}
	for i, t := range b {
		if i == at || i == at2 {
			text += f()
		} else if i > 0 {
			text += " "
		}
		if i > 0 {
			base += " "
		}
		base += t
		text += t
	}
	if at == len(b) || at2 == len(b) {
		text += f()
	}
	n := parse(base)
	sx.Assert(n != nil, "base query rejected")
	m := parse(text)
	sx.Assert(m != nil, "query with white space or comment rejected")
	x := toRn(m)
	sx.Obs(x.show())
	sx.Assert(same(toRn(n), x, false), "white space or comment changes the query")
	r, _ := refParse(base)
	sx.Assert(same(toRn(n), r, false), "base query")
}

// C05_Lit: white space inside a literal is kept.
func C05_Lit() {
	p := pickPos()
	s := filler(sx.Param("F", 2), sx.Param("M", 1))
	q := []string{"'", "\""}[sx.Choice(2)]
	sx.Assume(string([]rune(s)) == s)
	for i := 0; i < len(s); i++ {
		sx.Assume(s[i] != q[0])
	}
	n := parse(p.pre + q + s + q + p.post)
	sx.Assert(n != nil, "literal rejected")
	l := p.at(toRn(n))
	sx.Assert(sx.And(l.k == "str", sx.StrEq(l.s, s)), "white space of a literal changed")
}
