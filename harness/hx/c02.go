package hx

import (
	"github.com/wenerme/go-miniquery/miniquery"
	"github.com/wenerme/go-miniquery/zzverif/sx"
)

// c02: accepted iff the reference grammar derives it, with the same content.
func c02(s string) {
	n := parse(s)
	r, ok := refParse(s)
	if n == nil {
		sx.Obs("rejected")
		if r == nil {
			sx.Reach("reject")
			return
		}
		sx.Assert(!ok, "documented query rejected")
		return
	}
	sx.Assert(r != nil, "undocumented query accepted")
	sx.Assert(ok, "integer out of range accepted")
	t := toRn(n)
	sx.Obs(t.show())
	sx.Reach("accept")
	sx.Assert(same(t, r, true), "tree differs from the text")
}

func C02_Bytes() { c02(sx.StrUpTo(sx.Param("L", 2))) }
func C02_Holes() { c02(holeText(sx.Param("K", 2))) }
func C02_Edit()  { c02(edited(sx.Param("D", 1), sx.Param("K", 1))) }

// C02_Gen: generated sentences; all of them have to be accepted.
func C02_Gen() {
	g := &gen{left: sx.Param("B", 2)}
	c02(g.query())
}

// c07: print and parse again.
func c07(s string) {
	n, err := miniquery.Parse(s)
	if err != nil {
		return
	}
	t := toRn(n)
	out := miniquery.Build(n)
	sx.Obs(out)
	n2, err := miniquery.Parse(out)
	sx.Assert(err == nil, "printed query is not accepted")
	sx.Reach("again")
	sx.Assert(same(t, toRn(n2), false), "printed query differs")
}

func C07_Bytes() { c07(sx.StrUpTo(sx.Param("L", 2))) }
func C07_Holes() { c07(holeText(sx.Param("K", 2))) }
func C07_Edit()  { c07(edited(sx.Param("D", 1), sx.Param("K", 1))) }
func C07_Gen() {
	g := &gen{left: sx.Param("B", 2)}
	c07(g.query())
}

// C07_Chain: chains of and, or and not with parentheses.
func C07_Chain() {
	c := &chain{g: &gen{left: sx.Param("B", 2)}, e: &row{names: []string{"a", "b", "c", "d", "e", "g"}}}
	s, _ := c.chain(sx.Param("N", 3))
	c07(s)
}

// C07_Int: integers of any length at every place.
func C07_Int() {
	p := pickPos()
	t := []string{"", "1234567890123456789", "9223372036854775807", "9007199254740993"}[sx.Choice(4)]
	if t == "" {
		n := 1 + sx.Choice(19)
		k := min(n, sx.Param("D", 2))
		t = "1000200300400500600"[:n-k]
		for ; k > 0; k-- {
			b := sx.Byte()
			sx.Assume(digit(b))
			if t == "" && n > 1 {
				sx.Assume(b != '0')
			}
			t += string([]byte{b})
		}
	}
	c07(p.pre + t + p.post)
}

// C07_Lit: strings of many shapes at every place.
func C07_Lit() {
	p := pickPos()
	t, _ := anyLit()
	c07(p.pre + t + p.post)
}
