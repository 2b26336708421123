package hx

import "github.com/wenerme/go-miniquery/zzverif/sx"

// Reference recogniser and tree builder for the documented grammar. It is
// written from the grammar file alone: ordered choice, greedy repetition, no
// backtracking into a rule that has matched. Logic chains are grouped as in
// SQL afterwards.
type rp struct {
	s string
	i int
}

// refParse returns nil if the grammar does not derive s. The second result is
// false if s holds an integer that does not fit.
func refParse(s string) (*rn, bool) {
	p := &rp{s: string([]rune(s))} // the parser works on characters
	p.sp()
	n := p.expr()
	if n == nil {
		return nil, true
	}
	p.sp()
	if p.i != len(p.s) {
		return nil, true
	}
	return n, fits(n)
}

func fits(n *rn) bool {
	r := true
	if n.k == "int" {
		r = n.b
		n.b = false
	}
	for _, k := range n.kids {
		r = sx.And(r, fits(k))
	}
	return r
}

func (p *rp) at() int { return p.i }

// ch matches one byte out of set.
func (p *rp) ch(c byte) bool {
	if p.i < len(p.s) && p.s[p.i] == c {
		p.i++
		return true
	}
	return false
}

func (p *rp) lit(w string) bool {
	st := p.i
	for i := 0; i < len(w); i++ {
		if !p.ch(w[i]) {
			p.i = st
			return false
		}
	}
	return true
}

// word matches w in any letter case.
func (p *rp) word(w string) bool {
	st := p.i
	for i := 0; i < len(w); i++ {
		if !p.ch(w[i]) && !p.ch(w[i]-32) {
			p.i = st
			return false
		}
	}
	return true
}

func (p *rp) eol() bool { return p.lit("\r\n") || p.ch('\n') || p.ch('\r') }

func (p *rp) sp1() bool { // one SpaceComment
	if p.ch(' ') || p.ch('\t') || p.eol() {
		return true
	}
	st := p.i
	if p.lit("--") || p.lit("//") {
		for p.i < len(p.s) {
			if p.eol() {
				return true
			}
			p.i++
		}
	}
	p.i = st
	return false
}

func (p *rp) sp() {
	for p.sp1() {
	}
}

func (p *rp) spp() bool {
	if !p.sp1() {
		return false
	}
	p.sp()
	return true
}

func (p *rp) expr() *rn {
	l := p.notExpr()
	if l == nil {
		return nil
	}
	terms := []*rn{l}
	var ops []string
	for {
		st := p.i
		op := p.logic()
		if op == "" {
			break
		}
		r := p.notExpr()
		if r == nil {
			p.i = st
			break
		}
		terms = append(terms, r)
		ops = append(ops, op)
	}
	return groupLogic(terms, ops)
}

// groupLogic groups a chain: and before or, both to the left.
func groupLogic(ts []*rn, ops []string) *rn {
	var ors []*rn
	cur := ts[0]
	for i, op := range ops {
		if op == "and" {
			cur = &rn{k: "logic", op: "and", kids: []*rn{cur, ts[i+1]}}
		} else {
			ors = append(ors, cur)
			cur = ts[i+1]
		}
	}
	ors = append(ors, cur)
	r := ors[0]
	for _, o := range ors[1:] {
		r = &rn{k: "logic", op: "or", kids: []*rn{r, o}}
	}
	return r
}

func (p *rp) logic() string {
	st := p.i
	p.sp()
	op := ""
	switch {
	case p.word("and"):
		op = "and"
	case p.word("or"):
		op = "or"
	case p.lit("&&"):
		op = "and"
	case p.lit("||"):
		op = "or"
	default:
		p.i = st
		return ""
	}
	p.sp()
	return op
}

func (p *rp) notExpr() *rn {
	st := p.i
	if n := p.compare(); n != nil {
		return n
	}
	p.i = st
	p.sp()
	if p.word("not") && p.spp() {
		if n := p.compare(); n != nil {
			return &rn{k: "not", kids: []*rn{n}}
		}
	}
	p.i = st
	return nil
}

func (p *rp) compare() *rn {
	l := p.compareIn()
	if l == nil {
		return nil
	}
	for {
		st := p.i
		op := p.compareOp()
		if op == "" {
			return l
		}
		r := p.compareIn()
		if r == nil {
			p.i = st
			return l
		}
		l = &rn{k: "cmp", op: op, kids: []*rn{l, r}}
	}
}

func (p *rp) compareOp() string {
	st := p.i
	p.sp()
	op := ""
	switch {
	case p.lit(">="):
		op = "gte"
	case p.lit("<="):
		op = "lte"
	case p.lit("=="):
		op = "eq"
	case p.lit("!="):
		op = "neq"
	case p.lit(">"):
		op = "gt"
	case p.lit("<>"):
		op = "neq"
	case p.lit("<"):
		op = "lt"
	case p.lit("="):
		op = "eq"
	case p.word("gte"):
		op = "gte"
	case p.word("lte"):
		op = "lte"
	case p.word("gt"):
		op = "gt"
	case p.word("lt"):
		op = "lt"
	case p.word("eq"):
		op = "eq"
	case p.word("neq"):
		op = "neq"
	case p.word("like"):
		op = "like"
	case p.word2("not", "like"):
		op = "not like"
	default:
		p.i = st
		return ""
	}
	p.sp()
	return op
}

func (p *rp) word2(a, b string) bool {
	st := p.i
	if p.word(a) && p.spp() && p.word(b) {
		return true
	}
	p.i = st
	return false
}

func (p *rp) compareIn() *rn {
	l := p.predicate()
	if l == nil {
		return nil
	}
	st := p.i
	p.sp()
	op := ""
	if p.word("in") {
		op = "in"
	} else if p.word2("not", "in") {
		op = "not in"
	}
	if op != "" {
		p.sp()
		if a := p.array(); a != nil {
			return &rn{k: "cmp", op: op, kids: []*rn{l, a}}
		}
	}
	p.i = st
	return l
}

func (p *rp) predicate() *rn {
	l := p.between()
	if l == nil {
		return nil
	}
	st := p.i
	if p.spp() {
		op := ""
		switch {
		case p.lit("isnull"):
			op = "is null"
		case p.lit("notnull"):
			op = "is not null"
		default:
			s2 := p.i
			if p.lit("is") && p.spp() {
				op = p.tfn("is ")
			}
			if op == "" {
				p.i = s2
				if p.lit("is") && p.spp() && p.lit("not") && p.spp() {
					op = p.tfn("is not ")
				}
			}
		}
		if op != "" {
			p.sp()
			return &rn{k: "pred", op: op, kids: []*rn{l}}
		}
	}
	p.i = st
	return l
}

func (p *rp) tfn(pre string) string {
	switch {
	case p.lit("true"):
		return pre + "true"
	case p.lit("false"):
		return pre + "false"
	case p.lit("null"):
		return pre + "null"
	}
	return ""
}

func (p *rp) between() *rn {
	l := p.primary()
	if l == nil {
		return nil
	}
	st := p.i
	p.sp()
	op := "between"
	s2 := p.i
	if p.word("not") && p.spp() {
		op = "not between"
	} else {
		p.i = s2
	}
	if p.lit("between") {
		p.sp()
		s3 := p.i
		if lo := p.value(); lo != nil {
			p.sp()
			if p.word("and") {
				p.sp()
				if hi := p.value(); hi != nil {
					return &rn{k: "between", op: op, kids: []*rn{l, lo, hi}}
				}
			}
		}
		p.i = s3
		if p.ch('[') {
			p.sp()
			if lo := p.value(); lo != nil {
				p.sp()
				if p.ch(',') {
					p.sp()
					if hi := p.value(); hi != nil {
						p.sp()
						if p.ch(']') {
							return &rn{k: "between", op: op, kids: []*rn{l, lo, hi}}
						}
					}
				}
			}
		}
	}
	p.i = st
	return l
}

func (p *rp) primary() *rn {
	st := p.i
	if p.ch('(') {
		p.sp()
		if e := p.expr(); e != nil {
			p.sp()
			if p.ch(')') {
				return &rn{k: "paren", kids: []*rn{e}}
			}
		}
		p.i = st
	}
	if v := p.value(); v != nil {
		return v
	}
	p.i = st
	if name := p.ident(); name != "" {
		if args, ok := p.args(); ok {
			return &rn{k: "func", s: name, kids: args}
		}
	}
	p.i = st
	if r := p.chain("ref", "."); r != nil {
		return r
	}
	p.i = st
	if r := p.chain("json", "->"); r != nil {
		return r
	}
	p.i = st
	if name := p.ident(); name != "" {
		return &rn{k: "id", s: name}
	}
	p.i = st
	return nil
}

func (p *rp) chain(k, sep string) *rn {
	a := p.ident()
	if a == "" {
		return nil
	}
	names := []string{a}
	for {
		st := p.i
		if !p.lit(sep) {
			break
		}
		b := p.ident()
		if b == "" {
			p.i = st
			break
		}
		names = append(names, b)
	}
	if len(names) < 2 {
		return nil
	}
	return &rn{k: k, names: names}
}

func letter(b byte) bool {
	return sx.Or(sx.And(b >= 'a', b <= 'z'), sx.And(b >= 'A', b <= 'Z'))
}

func digit(b byte) bool { return sx.And(b >= '0', b <= '9') }

func (p *rp) ident() string {
	st := p.i
	if p.word("not") {
		p.i = st
		return ""
	}
	if p.i >= len(p.s) || !letter(p.s[p.i]) {
		return ""
	}
	p.i++
	for p.i < len(p.s) && sx.Or(sx.Or(letter(p.s[p.i]), digit(p.s[p.i])), p.s[p.i] == '_') {
		p.i++
	}
	return p.s[st:p.i]
}

func (p *rp) args() ([]*rn, bool) {
	if !p.ch('(') {
		return nil, false
	}
	p.sp()
	var r []*rn
	if a := p.expr(); a != nil {
		r = append(r, a)
		for {
			st := p.i
			p.sp()
			if p.ch(',') {
				p.sp()
				if a := p.expr(); a != nil {
					r = append(r, a)
					continue
				}
			}
			p.i = st
			break
		}
		p.sp()
		p.ch(',')
	}
	p.sp()
	return r, p.ch(')')
}

func (p *rp) value() *rn {
	st := p.i
	if v := p.literal(); v != nil {
		return v
	}
	p.i = st
	if v := p.array(); v != nil {
		return v
	}
	p.i = st
	return nil
}

func (p *rp) array() *rn {
	st := p.i
	for _, br := range []string{"[]", "()"} {
		p.i = st
		if !p.ch(br[0]) {
			continue
		}
		p.sp()
		n := &rn{k: "arr"}
		if e := p.literal(); e != nil {
			n.kids = append(n.kids, e)
			for {
				s2 := p.i
				p.sp()
				if p.ch(',') {
					p.sp()
					if e := p.literal(); e != nil {
						n.kids = append(n.kids, e)
						continue
					}
				}
				p.i = s2
				break
			}
			p.sp()
			p.ch(',')
		}
		p.sp()
		if p.ch(br[1]) {
			return n
		}
	}
	p.i = st
	return nil
}

func (p *rp) literal() *rn {
	st := p.i
	for _, q := range []byte{'\'', '"'} {
		if p.ch(q) {
			for p.i < len(p.s) {
				e := p.i
				if p.ch(q) {
					return &rn{k: "str", s: p.s[st+1 : e]}
				}
				p.i++
			}
			p.i = st
		}
	}
	if p.ch('0') {
		return &rn{k: "int", b: true}
	}
	if p.i < len(p.s) && sx.And(p.s[p.i] >= '1', p.s[p.i] <= '9') {
		p.i++
		for p.i < len(p.s) && digit(p.s[p.i]) {
			p.i++
		}
		n, ok := decimal(p.s[st:p.i])
		return &rn{k: "int", n: n, b: ok}
	}
	switch {
	case p.lit("true"), p.lit("TRUE"):
		return &rn{k: "bool", b: true}
	case p.lit("false"), p.lit("FALSE"):
		return &rn{k: "bool"}
	case p.lit("null"), p.lit("NULL"):
		return &rn{k: "null"}
	}
	return nil
}

// decimal is the value of a digit string without leading zero and whether it
// fits into an int.
func decimal(d string) (int, bool) {
	const max = "9223372036854775807"
	ok := len(d) <= len(max)
	if len(d) == len(max) {
		less, eq := false, true
		for i := 0; i < len(d); i++ {
			less = sx.Or(less, sx.And(eq, d[i] < max[i]))
			eq = sx.And(eq, d[i] == max[i])
		}
		ok = sx.Or(less, eq)
	}
	n := 0
	for i := 0; i < len(d); i++ {
		n = n*10 + int(d[i]-'0')
	}
	return n, ok
}
