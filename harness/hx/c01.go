package hx

import (
	"context"

	"github.com/wenerme/go-miniquery/miniquery"
	"github.com/wenerme/go-miniquery/zzverif/sx"
)

// Entries lists the harnesses by name for the native build.
var Entries = map[string]func(){
	"C10_Gen":     C10_Gen,
	"C10_Str":     C10_Str,
	"C10_Int":     C10_Int,
	"C10_Comment": C10_Comment,
	"C12_Lit":     C12_Lit,
	"C12_Gen":     C12_Gen,
	"C12_Chain":   C12_Chain,
	"C11_Long":    C11_Long,
	"C11_Names":   C11_Names,
	"C11_Refs":    C11_Refs,
	"C11_Places":  C11_Places,
	"C11_Short":   C11_Short,
	"C11_Swap":    C11_Swap,
	"C13_Bytes":   C13_Bytes,
	"C13_Edit":    C13_Edit,
	"C13_Holes":   C13_Holes,
	"C13_Func":    C13_Func,
	"C13_Bad":     C13_Bad,
	"C13_Gen":     C13_Gen,
	"C13_List":    C13_List,
	"C13_Ops":     C13_Ops,
	"C13_NoModel": C13_NoModel,
	"C14_And":     C14_And,
	"C14_Gen":     C14_Gen,
	"C14_Soft":    C14_Soft,
	"C14_Keep":    C14_Keep,
	"C14_Shared":  C14_Shared,
	"C15_Gen":     C15_Gen,
	"C15_Joins":   C15_Joins,
	"C16_Gen":     C16_Gen,
	"C16_Str":     C16_Str,
	"C16_Int":     C16_Int,
	"C16_Comment": C16_Comment,
	"C17_Lit":     C17_Lit,
	"C17_Gen":     C17_Gen,
	"C17_Chain":   C17_Chain,
	"C17_With":    C17_With,
	"C18_Bytes":   C18_Bytes,
	"C18_Edit":    C18_Edit,
	"C18_Holes":   C18_Holes,
	"C18_Func":    C18_Func,
	"C18_With":    C18_With,
	"C26_Lit":     C26_Lit,
	"C26_Gen":     C26_Gen,
	"C27_Edit":    C27_Edit,
	"C27_Gen":     C27_Gen,
	"C27_Lit":     C27_Lit,
	"C18_Bad":     C18_Bad,
	"C18_Gen":     C18_Gen,
	"C18_Edge":    C18_Edge,
	"C18_Graph":   C18_Graph,
	"C19_Big":     C19_Big,
	"C19_Lit":     C19_Lit,
	"C19_Gen":     C19_Gen,
	"C19_Nest":    C19_Nest,
	"C19_Pair":    C19_Pair,
	"C20_Gen":     C20_Gen,
	"C20_Chain":   C20_Chain,
	"C20_Lit":     C20_Lit,
	"C21_Bytes":   C21_Bytes,
	"C21_Edit":    C21_Edit,
	"C21_Holes":   C21_Holes,
	"C21_Bad":     C21_Bad,
	"C21_Gen":     C21_Gen,
	"C21_List":    C21_List,
	"C22_Cfgs":    C22_Cfgs,
	"C22_Models":  C22_Models,
	"C22_Many":    C22_Many,
	"C22_Often":   C22_Often,
	"C22_Ent":     C22_Ent,
	"C22_QL":      C22_QL,
	"C22_Gorm":    C22_Gorm,
	"C22_Edit":    C22_Edit,
	"C22_Near":    C22_Near,
	"C22_Lit":     C22_Lit,
	"C23_Short":   C23_Short, "C23_Places": C23_Places, "C23_Long": C23_Long,
	"C24_Ent":   C24_Ent,
	"C24_Gorm":  C24_Gorm,
	"C24_QL":    C24_QL,
	"C24_Gen":   C24_Gen,
	"C25_Lit":   C25_Lit,
	"C25_Gen":   C25_Gen,
	"C25_Chain": C25_Chain,
	"C25_Pair":  C25_Pair,
	"C01_Bytes": C01_Bytes,
	"C01_Edit":  C01_Edit,
	"C01_Holes": C01_Holes,
	"C01_Gen":   C01_Gen,
	"C01_Int":   C01_Int,
	"C07_Chain": C07_Chain,
	"C02_Bytes": C02_Bytes,
	"C02_Edit":  C02_Edit,
	"C02_Holes": C02_Holes,
	"C02_Lit":   C02_Lit,
	"C02_Gen":   C02_Gen,
	"C03_Ops":   C03_Ops,
	"C04_Str":   C04_Str,
	"C04_Huge":  C04_Huge,
	"C04_Int":   C04_Int,
	"C04_Limit": C04_Limit,
	"C04_Word":  C04_Word,
	"C05_Fill":  C05_Fill,
	"C05_Lit":   C05_Lit,
	"C06_Gen":   C06_Gen,
	"C06_Chain": C06_Chain,
	"C06_Paren": C06_Paren,
	"C08_Near":  C08_Near,
	"C08_Join":  C08_Join,
	"C08_Lit":   C08_Lit,
	"C08_Gen":   C08_Gen,
	"C09_Sets":  C09_Sets,
	"C09_Walk":  C09_Walk,
	"C09_Wrap":  C09_Wrap,
	"C07_Bytes": C07_Bytes,
	"C07_Edit":  C07_Edit,
	"C07_Int":   C07_Int,
	"C07_Lit":   C07_Lit,
	"C07_Holes": C07_Holes,
	"C07_Gen":   C07_Gen,
}

// parse is Parse with the error/tree contract asserted.
func parse(s string) *miniquery.Node {
	n, err := miniquery.Parse(s)
	sx.Assert((n == nil) == (err != nil), "not exactly one of tree and error")
	return n
}

func c01(s string) {
	n, err := miniquery.Parse(s)
	sx.Assert((n == nil) == (err != nil), "not exactly one of tree and error")
	if err != nil {
		sx.Reach("error")
		_ = err.Error()
		sx.Obs("err")
		return
	}
	sx.Reach("tree")
	m := complete(n)
	sx.Assert(m == "", "incomplete tree: "+m)
	_ = n.String()
	v := miniquery.Visitor{}
	v.Init()
	sx.Assert(v.Visit(context.Background(), n) == nil, "walk fails")
	sx.Obs(miniquery.Build(n))
}

// C01_Bytes: any byte string of up to L bytes.
func C01_Bytes() { c01(sx.StrUpTo(sx.Param("L", 2))) }

// C01_Holes: skeleton queries with up to K arbitrary bytes in a hole.
func C01_Holes() { c01(holeText(sx.Param("K", 2))) }

// C01_Edit: sample queries with an edit at any position.
func C01_Edit() { c01(edited(sx.Param("D", 1), sx.Param("K", 1))) }

// C01_Int: numbers around and beyond the limits of the integer types.
func C01_Int() {
	p := pickPos()
	pre := []string{"922337203685477", "184467440737095", "214748364", "9"}[sx.Choice(4)]
	c01(p.pre + pre + digits(1+sx.Choice(sx.Param("D", 7))) + p.post)
}

func digits(n int) string {
	s := ""
	for ; n > 0; n-- {
		b := sx.Byte()
		sx.Assume(digit(b))
		s += string([]byte{b})
	}
	return s
}

// C01_Gen: generated sentences.
func C01_Gen() {
	g := &gen{left: sx.Param("B", 2)}
	c01(g.query())
}
