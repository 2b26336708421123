package hx

import "github.com/wenerme/go-miniquery/zzverif/sx"

// query derives a sentence: all of them within the budget of choices, or with
// big=1 the larger ones that the budget does not reach.
func (g *gen) query() string {
	switch sx.Param("big", 0) {
	case 1:
		return g.big()
	case 2:
		return g.huge()
	}
	return g.expr()
}

const (
	bigList = iota
	bigCall
	bigChain
	bigNest
	bigPair
	bigStr
	bigInt
	bigRef
	bigName
	bigText
	bigKinds
)

// big derives long lists, calls, chains, deep nesting, pairs of conditions of
// any kind, long literals and names.
func (g *gen) big() string {
	switch sx.Choice(bigKinds) {
	case bigList:
		n := 3 + sx.Choice(sx.Param("list", 8))
		s := g.name() + []string{" in [", " not in ["}[sx.Choice(2)]
		for i := 0; i < n; i++ {
			if i > 0 {
				s += ", "
			}
			s += g.literal()
		}
		return s + "]"
	case bigCall:
		if !g.noFn && !g.oneArg {
			return g.bigCall()
		}
	case bigChain:
		return g.bigChain()
	case bigNest:
		return g.bigNest()
	case bigPair:
		s := g.anyCond(sx.Choice(anyConds)) + []string{" and ", " or "}[sx.Choice(2)]
		return s + g.anyCond(sx.Choice(anyConds))
	case bigStr:
		if !g.noStr {
			return g.bigStr()
		}
	case bigInt:
		n := 2 + sx.Choice(sx.Param("digits", 17))
		s, v := "", 0
		for i := 0; i < n; i++ {
			b := sx.Byte()
			sx.Assume(digit(b))
			if i == 0 {
				sx.Assume(b != '0')
			}
			s += string([]byte{b})
			v = v*10 + int(b-'0')
		}
		l := g.name()
		g.lit(&rn{k: "int", n: v})
		return l + " >= " + s
	case bigRef:
		if g.refs == nil && !g.noRef {
			return g.bigRef()
		}
	case bigName:
		if g.names == nil {
			return g.bigName() + " = " + g.bigName()
		}
	case bigText:
		return g.bigText()
	}
	sx.Assume(false)
	return ""
}

func (g *gen) bigCall() string {
	f := "f"
	if g.funcs != nil {
		f = g.funcs[sx.Choice(len(g.funcs))]
	}
	s := f + "("
	for i, n := 0, 3+sx.Choice(4); i < n; i++ {
		if i > 0 {
			s += ", "
		}
		if i%2 == 0 {
			s += g.operand()
		} else {
			s += g.literal()
		}
	}
	return s + ") = " + g.integer()
}

// bigChain has up to 9 terms, with and/or in a few patterns and one term that
// differs from the rest.
func (g *gen) bigChain() string {
	n := 4 + sx.Choice(sx.Param("chain", 6))
	pat := sx.Choice(5)
	odd := sx.Choice(n)
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			or := pat == 1 || pat == 2 && i%2 == 1 || pat == 3 && i%2 == 0 || pat == 4 && i == odd
			if or {
				s += " or "
			} else {
				s += " and "
			}
		}
		if i == odd {
			s += "not "
		}
		s += g.name() + " > " + g.integer()
	}
	return s
}

// bigNest is a condition under up to 6 levels of two kinds of nesting.
func (g *gen) bigNest() string {
	kinds := 7
	if g.edges != nil {
		kinds++
	}
	k := [2]int{sx.Choice(kinds), sx.Choice(kinds)}
	n := 2 + sx.Choice(sx.Param("depth", 5))
	pre, post := "", ""
	for i := 0; i < n; i++ {
		switch k[i%2] {
		case 0:
			pre, post = pre+"(", ")"+post
		case 1:
			pre, post = pre+"not (", ")"+post
		case 2:
			pre, post = pre+"("+g.name()+" or ", ")"+post
		case 3:
			pre, post = pre+g.name()+" = (", ")"+post
		case 4:
			pre, post = pre+"(", ") and b"+post
		case 5:
			pre, post = pre+"((", ") is null)"+post
		case 6:
			if g.noFn {
				sx.Assume(false)
			}
			f := "f"
			if g.funcs != nil {
				f = g.funcs[0]
			}
			if g.oneArg {
				f = "date"
			}
			pre, post = pre+f+"(", ")"+post
		case 7:
			e := g.edges[g.table][i%len(g.edges[g.table])]
			pre, post = pre+"has_edge("+e.n+", ", ")"+post
			g.table = e.t
		}
	}
	return pre + g.name() + " = " + g.integer() + post
}

const anyConds = 13

// anyCond is one condition of every kind.
func (g *gen) anyCond(k int) string {
	l := g.name()
	switch k {
	case 0:
		return l + " = " + g.integer()
	case 1:
		return l + " <= " + g.name()
	case 2:
		l += " in [" + g.integer() + ", "
		return l + g.integer() + "]"
	case 3:
		return l + " not in (" + g.integer() + ")"
	case 4:
		l += " between " + g.integer() + " and "
		return l + g.integer()
	case 5:
		l += " not between " + g.integer() + " and "
		return l + g.integer()
	case 6:
		return l + " is null"
	case 7:
		return l + " is not null"
	case 8:
		if g.noStr {
			return l + " like " + g.name()
		}
		return l + " not like " + g.str("'")
	case 9:
		l = "not (" + l + " != " + g.integer() + " or "
		return l + g.name() + ")"
	case 10:
		l = "(" + l + " and " + g.name() + " = " + g.integer() + ")"
		return l
	case 11:
		return "not " + l + " < " + g.integer()
	}
	return l + " in []"
}

// bigStr is a long string literal.
func (g *gen) bigStr() string {
	l := g.name()
	n := []int{5, 8, 16, 33}[sx.Choice(4)]
	q := []string{"'", "\""}[sx.Choice(2)]
	s := ""
	for i := 0; i < n; i++ {
		b := sx.Byte()
		sx.Assume(sx.And(b < 0x80, b != q[0]))
		s += string([]byte{b})
	}
	g.lit(&rn{k: "str", s: s})
	return l + " = " + q + s + q
}

func (g *gen) bigRef() string {
	sep := "."
	if !g.noJSON && sx.Choice(2) == 1 {
		sep = "->"
	}
	s := g.name()
	for n := 2 + sx.Choice(4); n > 0; n-- {
		s += sep + g.name()
	}
	return s + " = " + g.name()
}

// bigName is a long name with any two characters in it.
func (g *gen) bigName() string {
	n := []int{2, 9, 31, 64, 70}[sx.Choice(5)]
	pat := "Ab_9zZ0y__Xc1"
	s := "k"
	for len(s) < n {
		s += string(pat[len(s)%len(pat)])
	}
	a, b := sx.Byte(), sx.Byte()
	sx.Assume(sx.And(idByte(a), idByte(b)))
	return s[:n/2] + string([]byte{a}) + s[n/2:] + string([]byte{b})
}

func idByte(b byte) bool {
	return sx.Or(sx.Or(sx.And(b >= 'a', b <= 'z'), sx.And(b >= 'A', b <= 'Z')), sx.Or(digit(b), b == '_'))
}

// bigText are queries as they are used.
func (g *gen) bigText() string {
	n, i := g.name, g.integer
	switch sx.Choice(4) {
	case 0:
		s := n() + " = " + i() + " and (" + n() + " > " + i() + " or " + n() + " <> " + i() + ") and not "
		s += n() + " in [" + i() + ", "
		s += i() + ", "
		s += i() + "] or "
		s += n() + " between " + i() + " and "
		return s + i()
	case 1:
		s := "((" + n() + " is null || " + n() + " >= " + i() + ") && (" + n() + " is not null || " + n() + " < " + i() + ")) or (not ("
		return s + n() + " == " + i() + ") and " + n() + " = " + n() + ")"
	case 2:
		s := n() + " lte " + i() + " AND " + n() + " GTE " + i() + " OR "
		s += n() + " Neq " + i() + " And\n\t"
		s += n() + " not  in ( " + i() + " , "
		s += i() + " ) -- end\n or "
		return s + n() + " isnull"
	}
	s := n() + " = (" + n() + " = " + i() + ") and "
	s += "(" + n() + " < " + i() + ") = (" + n() + " like " + n() + ") or not not_a"
	return s[:len(s)-len(" or not not_a")] + " or not " + n()
}

// huge derives sentences far beyond the ones that examples have: sizes below
// and above the usual limits.
func (g *gen) huge() string {
	of := func(n ...int) int { return n[sx.Choice(len(n))] }
	num := func(i, n int) string {
		if i == 0 || i == n/2 || i == n-1 {
			return g.integer()
		}
		d := 1 + i%9
		g.lit(&rn{k: "int", n: d})
		return string([]byte{byte('0' + d)})
	}
	switch sx.Choice(8) {
	case 0:
		n := of(12, 17, 33, 65, 101, 129, 257, 501, 1000, 1001)
		s := g.name() + []string{" in [", " not in ["}[sx.Choice(2)]
		for i := 0; i < n; i++ {
			if i > 0 {
				s += ", "
			}
			s += num(i, n)
		}
		return s + "]"
	case 1:
		n := of(10, 16, 17, 33, 65, 101, 129)
		op := [][2]string{{" and ", " and "}, {" or ", " or "}, {" and ", " or "}}[sx.Choice(3)]
		s := ""
		for i := 0; i < n; i++ {
			if i > 0 {
				s += op[i%2]
			}
			s += g.name() + " > " + num(i, n)
		}
		return s
	case 2:
		pre, post := "", ""
		k := sx.Choice(6)
		for i := of(7, 8, 10, 12, 16, 17, 33, 51, 65); i > 0; i-- {
			switch k {
			case 0:
				pre, post = pre+"(", ")"+post
			case 1:
				pre, post = pre+"not (", ")"+post
			case 2:
				pre, post = pre+"("+g.name()+" and ", ")"+post
			case 3:
				pre, post = pre+g.name()+" = (", ")"+post
			case 4:
				sx.Assume(!g.noFn && !g.oneArg && g.funcs == nil)
				pre, post = pre+"f(", ")"+post
			case 5:
				sx.Assume(g.edges != nil)
				es := g.edges[g.table]
				e := es[i%len(es)]
				pre, post = pre+"has_edge("+e.n+", ", ")"+post
				g.table = e.t
			}
		}
		return pre + g.name() + " = " + g.integer() + post
	case 3:
		sx.Assume(!g.noStr)
		l := g.name()
		n := of(64, 65, 100, 128, 129, 255, 256, 257, 1000, 1025, 4097, 16385)
		b := []byte{}
		for len(b) < n {
			b = append(b, "it is % a_text, 1 ? "[len(b)%20])
		}
		for _, i := range []int{0, n / 2, n - 1} {
			b[i] = sx.Byte()
			sx.Assume(sx.And(b[i] < 0x80, b[i] != '\''))
		}
		g.lit(&rn{k: "str", s: string(b)})
		return l + " = '" + string(b) + "'"
	case 4:
		sx.Assume(!g.noFn && !g.oneArg)
		f := "f"
		if g.funcs != nil {
			f = g.funcs[sx.Choice(len(g.funcs))]
		}
		s := f + "("
		for i, n := 0, of(7, 8, 10, 16, 17, 33, 65, 101, 129); i < n; i++ {
			if i > 0 {
				s += ", "
			}
			s += num(i, n)
		}
		return s + ")"
	case 5:
		sx.Assume(g.names == nil)
		b := []byte{}
		for n := of(100, 128, 255, 256, 257, 1025, 4097); len(b) < n; {
			b = append(b, "aB_9z"[len(b)%5])
		}
		b[len(b)/2] = sx.Byte()
		sx.Assume(idByte(b[len(b)/2]))
		return string(b) + " = " + g.integer()
	case 6:
		pad := ""
		for n := of(16, 64, 257, 1025, 4097); len(pad) < n; {
			pad += " "
		}
		if sx.Choice(2) == 1 {
			pad = "--" + pad + "x\n"
		}
		s := g.name() + " " + pad + "= " + pad + g.integer() + pad + " and " + pad
		return s + g.name() + pad
	}
	s := ""
	for i, n := 0, of(11, 14, 26, 53); i < n; i++ {
		if i > 0 {
			s += []string{" and ", " or "}[i%2]
		}
		s += g.anyCond(i % anyConds)
	}
	return s
}
