package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms are fixed-width bit-vector / boolean expressions over the symbolic
// inputs of one path. They are hash-consed per path so that pointer equality
// is structural equality.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OExtract // low w bits
)

var opName = [...]string{
	OConst: "const", OVar: "var", ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OZext: "zext", OSext: "sext", OExtract: "extract",
}

// Term: W==0 means boolean.
type Term struct {
	Op      Op
	W       uint8
	V       uint64 // constant value or variable index
	A, B, C *Term
	id      uint32
	size    uint32
	vars    []uint64 // bitset of variables
}

type termKey struct {
	op      Op
	w       uint8
	v       uint64
	a, b, c *Term
}

type TermCtx struct {
	tab  map[termKey]*Term
	next uint32
	t, f *Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{}
	c.Reset()
	return c
}

func (c *TermCtx) Reset() {
	c.tab = make(map[termKey]*Term, 256)
	c.next = 0
	c.t = c.raw(OConst, 0, 1, nil, nil, nil)
	c.f = c.raw(OConst, 0, 0, nil, nil, nil)
}

func orBits(a, b []uint64) []uint64 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) < len(b) {
		a, b = b, a
	}
	same := true
	for i := range b {
		if b[i]&^a[i] != 0 {
			same = false
			break
		}
	}
	if same {
		return a
	}
	r := make([]uint64, len(a))
	copy(r, a)
	for i := range b {
		r[i] |= b[i]
	}
	return r
}

func bitsIntersect(a, b []uint64) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

func bitsEach(a []uint64, f func(int)) {
	for i, x := range a {
		for x != 0 {
			k := bits.TrailingZeros64(x)
			f(i*64 + k)
			x &= x - 1
		}
	}
}

func (c *TermCtx) raw(op Op, w uint8, v uint64, a, b, d *Term) *Term {
	k := termKey{op, w, v, a, b, d}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{Op: op, W: w, V: v, A: a, B: b, C: d, id: c.next, size: 1}
	c.next++
	for _, x := range [...]*Term{a, b, d} {
		if x != nil {
			t.vars = orBits(t.vars, x.vars)
			t.size += x.size
		}
	}
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	if op == OVar {
		t.vars = make([]uint64, v/64+1)
		t.vars[v/64] = 1 << (v % 64)
	}
	c.tab[k] = t
	return t
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext64(v uint64, w uint8) int64 {
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *TermCtx) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return c.t
		}
		return c.f
	}
	return c.raw(OConst, w, v&maskW(w), nil, nil, nil)
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.t
	}
	return c.f
}

func (c *TermCtx) Var(w uint8, idx int) *Term { return c.raw(OVar, w, uint64(idx), nil, nil, nil) }

func (t *Term) isC() bool { return t.Op == OConst }

func (c *TermCtx) Not(a *Term) *Term {
	switch a.Op {
	case OConst:
		return c.Bool(a.V == 0)
	case ONot:
		return a.A
	case OUlt:
		return c.raw(OUle, 0, 0, a.B, a.A, nil)
	case OUle:
		return c.raw(OUlt, 0, 0, a.B, a.A, nil)
	case OSlt:
		return c.raw(OSle, 0, 0, a.B, a.A, nil)
	case OSle:
		return c.raw(OSlt, 0, 0, a.B, a.A, nil)
	}
	return c.raw(ONot, 0, 0, a, nil, nil)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.isC() {
		if a.V == 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.V == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.f
	}
	return c.raw(OAnd, 0, 0, a, b, nil)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.isC() {
		if a.V != 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.V != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.t
	}
	return c.raw(OOr, 0, 0, a, b, nil)
}

func (c *TermCtx) Ite(k, a, b *Term) *Term {
	if k.isC() {
		if k.V != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if k.Op == ONot {
		return c.Ite(k.A, b, a)
	}
	if a.W == 0 {
		if a.isC() {
			if a.V != 0 {
				return c.Or(k, b)
			}
			return c.And(c.Not(k), b)
		}
		if b.isC() {
			if b.V != 0 {
				return c.Or(c.Not(k), a)
			}
			return c.And(k, a)
		}
	}
	return c.raw(OIte, a.W, 0, k, a, b)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.t
	}
	if a.isC() && b.isC() {
		return c.Bool(a.V == b.V)
	}
	if a.isC() {
		a, b = b, a
	}
	if a.W == 0 {
		if b.isC() {
			if b.V != 0 {
				return a
			}
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.f
		}
		return c.raw(OEq, 0, 0, a, b, nil)
	}
	if b.isC() {
		switch a.Op {
		case OZext:
			if b.V > maskW(a.A.W) {
				return c.f
			}
			return c.Eq(a.A, c.Const(a.A.W, b.V))
		case OSext:
			lo := b.V & maskW(a.A.W)
			if uint64(sext64(lo, a.A.W))&maskW(a.W) != b.V {
				return c.f
			}
			return c.Eq(a.A, c.Const(a.A.W, lo))
		case OIte:
			if a.B.isC() || a.C.isC() {
				return c.Ite(a.A, c.Eq(a.B, b), c.Eq(a.C, b))
			}
		case OAdd:
			if a.B.isC() {
				return c.Eq(a.A, c.Const(a.W, b.V-a.B.V))
			}
		case OBXor:
			if a.B.isC() {
				return c.Eq(a.A, c.Const(a.W, b.V^a.B.V))
			}
		}
		return c.raw(OEq, 0, 0, a, b, nil)
	}
	if a.Op == OZext && b.Op == OZext && a.A.W == b.A.W {
		return c.Eq(a.A, b.A)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.raw(OEq, 0, 0, a, b, nil)
}

func evalBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := maskW(w)
	bo := func(b bool) (uint64, bool) {
		if b {
			return 1, true
		}
		return 0, true
	}
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1, true
			}
			return m, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OSRem:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		s := y
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return uint64(sext64(x, w)>>s) & m, true
	case OUlt:
		return bo(x < y)
	case OUle:
		return bo(x <= y)
	case OSlt:
		return bo(sext64(x, w) < sext64(y, w))
	case OSle:
		return bo(sext64(x, w) <= sext64(y, w))
	case OEq:
		return bo(x == y)
	}
	return 0, false
}

// unsigned upper bound of a term, cheap.
func umax(t *Term) uint64 {
	if t.size > 2000 { // parts may be shared
		return maskW(t.W)
	}
	switch t.Op {
	case OConst:
		return t.V
	case OZext:
		return umax(t.A)
	case OIte:
		a, b := umax(t.B), umax(t.C)
		if a > b {
			return a
		}
		return b
	case OBAnd:
		if t.B.isC() {
			return t.B.V
		}
	}
	return maskW(t.W)
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		v, _ := evalBin(op, a.W, a.V, b.V)
		switch op {
		case OUlt, OUle, OSlt, OSle:
			return c.Bool(v != 0)
		}
		return c.Const(a.W, v)
	}
	w := a.W
	switch op {
	case OAdd:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.V == 0 {
				return a
			}
			if a.Op == OAdd && a.B.isC() {
				return c.Bin(OAdd, a.A, c.Const(w, a.B.V+b.V))
			}
		}
	case OSub:
		if b.isC() {
			return c.Bin(OAdd, a, c.Const(w, -b.V))
		}
		if a == b {
			return c.Const(w, 0)
		}
	case OMul:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.V == 0 {
				return b
			}
			if b.V == 1 {
				return a
			}
		}
	case OBAnd:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.V == 0 {
				return b
			}
			if b.V == maskW(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBOr, OBXor:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.V == 0 {
			return a
		}
		if a == b {
			if op == OBOr {
				return a
			}
			return c.Const(w, 0)
		}
	case OShl, OLshr, OAshr:
		if b.isC() && b.V == 0 {
			return a
		}
	case OUlt:
		if a == b {
			return c.f
		}
		if b.isC() && b.V == 0 {
			return c.f
		}
		if b.isC() && umax(a) < b.V {
			return c.t
		}
		if a.isC() && umax(b) <= a.V {
			return c.f
		}
		return c.raw(op, 0, 0, a, b, nil)
	case OUle:
		if a == b {
			return c.t
		}
		if a.isC() && a.V == 0 {
			return c.t
		}
		if b.isC() && umax(a) <= b.V {
			return c.t
		}
		if a.isC() && umax(b) < a.V {
			return c.f
		}
		return c.raw(op, 0, 0, a, b, nil)
	case OSlt, OSle:
		if a == b {
			return c.Bool(op == OSle)
		}
		// both known non-negative: unsigned comparison
		half := uint64(1) << (w - 1)
		if umax(a) < half && umax(b) < half {
			if op == OSlt {
				return c.Bin(OUlt, a, b)
			}
			return c.Bin(OUle, a, b)
		}
		if umax(a) < half && b.isC() && b.V >= half { // a>=0 > b
			return c.f
		}
		if umax(b) < half && a.isC() && a.V >= half {
			return c.t
		}
		return c.raw(op, 0, 0, a, b, nil)
	}
	return c.raw(op, w, 0, a, b, nil)
}

func (c *TermCtx) Zext(w uint8, a *Term) *Term {
	if a.W == w {
		return a
	}
	if a.isC() {
		return c.Const(w, a.V)
	}
	if a.Op == OZext {
		return c.Zext(w, a.A)
	}
	return c.raw(OZext, w, 0, a, nil, nil)
}

func (c *TermCtx) Sext(w uint8, a *Term) *Term {
	if a.W == w {
		return a
	}
	if a.isC() {
		return c.Const(w, uint64(sext64(a.V, a.W)))
	}
	if a.Op == OZext { // top bit is zero
		return c.Zext(w, a.A)
	}
	return c.raw(OSext, w, 0, a, nil, nil)
}

func (c *TermCtx) Extract(w uint8, a *Term) *Term {
	if a.W == w {
		return a
	}
	if a.isC() {
		return c.Const(w, a.V)
	}
	switch a.Op {
	case OZext, OSext:
		if a.A.W == w {
			return a.A
		}
		if a.A.W > w {
			return c.Extract(w, a.A)
		}
		if a.Op == OZext {
			return c.Zext(w, a.A)
		}
		return c.Sext(w, a.A)
	case OExtract:
		return c.Extract(w, a.A)
	case OBAnd, OBOr, OBXor, OAdd, OSub:
		if a.B.isC() {
			return c.Bin(a.Op, c.Extract(w, a.A), c.Const(w, a.B.V))
		}
	case OIte:
		return c.Ite(a.A, c.Extract(w, a.B), c.Extract(w, a.C))
	}
	return c.raw(OExtract, w, 0, a, nil, nil)
}

// Eval evaluates t under the assignment m (variable index -> value).
func Eval(t *Term, m []uint64) uint64 {
	if t.size > 400 {
		return evalMemo(t, m, map[*Term]uint64{})
	}
	return eval1(t, m)
}

func mget(m []uint64, i uint64) uint64 {
	if i < uint64(len(m)) {
		return m[i]
	}
	return 0
}

func eval1(t *Term, m []uint64) uint64 {
	switch t.Op {
	case OConst:
		return t.V
	case OVar:
		return mget(m, t.V)
	case ONot:
		return 1 - eval1(t.A, m)
	case OAnd:
		if eval1(t.A, m) == 0 {
			return 0
		}
		return eval1(t.B, m)
	case OOr:
		if eval1(t.A, m) != 0 {
			return 1
		}
		return eval1(t.B, m)
	case OIte:
		if eval1(t.A, m) != 0 {
			return eval1(t.B, m)
		}
		return eval1(t.C, m)
	case OZext:
		return eval1(t.A, m)
	case OSext:
		return uint64(sext64(eval1(t.A, m), t.A.W)) & maskW(t.W)
	case OExtract:
		return eval1(t.A, m) & maskW(t.W)
	}
	v, _ := evalBin(t.Op, t.A.W, eval1(t.A, m), eval1(t.B, m))
	return v
}

func evalMemo(t *Term, m []uint64, memo map[*Term]uint64) uint64 {
	if t.Op == OConst {
		return t.V
	}
	if t.Op == OVar {
		return mget(m, t.V)
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	e := func(x *Term) uint64 { return evalMemo(x, m, memo) }
	switch t.Op {
	case ONot:
		r = 1 - e(t.A)
	case OAnd:
		if e(t.A) != 0 {
			r = e(t.B)
		}
	case OOr:
		r = 1
		if e(t.A) == 0 {
			r = e(t.B)
		}
	case OIte:
		if e(t.A) != 0 {
			r = e(t.B)
		} else {
			r = e(t.C)
		}
	case OZext:
		r = e(t.A)
	case OSext:
		r = uint64(sext64(e(t.A), t.A.W)) & maskW(t.W)
	case OExtract:
		r = e(t.A) & maskW(t.W)
	default:
		r, _ = evalBin(t.Op, t.A.W, e(t.A), e(t.B))
	}
	memo[t] = r
	return r
}

// smt prints t in SMT-LIB2. name maps a variable term to its symbol.
func smt(sb *strings.Builder, t *Term, name func(*Term) string) {
	if t.size > 300 {
		smtLet(sb, t, name)
		return
	}
	smt1(sb, t, name, nil)
}

func smt1(sb *strings.Builder, t *Term, name func(*Term) string, bound map[*Term]string) {
	if bound != nil {
		if s, ok := bound[t]; ok {
			sb.WriteString(s)
			return
		}
	}
	switch t.Op {
	case OConst:
		if t.W == 0 {
			if t.V != 0 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
			return
		}
		fmt.Fprintf(sb, "(_ bv%d %d)", t.V, t.W)
		return
	case OVar:
		sb.WriteString(name(t))
		return
	case OZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) ", t.W-t.A.W)
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) ", t.W-t.A.W)
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d 0) ", t.W-1)
	default:
		sb.WriteByte('(')
		sb.WriteString(opName[t.Op])
		sb.WriteByte(' ')
	}
	smt1(sb, t.A, name, bound)
	if t.B != nil {
		sb.WriteByte(' ')
		smt1(sb, t.B, name, bound)
	}
	if t.C != nil {
		sb.WriteByte(' ')
		smt1(sb, t.C, name, bound)
	}
	sb.WriteByte(')')
}

func smtLet(sb *strings.Builder, t *Term, name func(*Term) string) {
	cnt := map[*Term]int{}
	var order []*Term
	var walk func(x *Term)
	walk = func(x *Term) {
		if x == nil || x.Op == OConst || x.Op == OVar {
			return
		}
		cnt[x]++
		if cnt[x] > 1 {
			return
		}
		walk(x.A)
		walk(x.B)
		walk(x.C)
		order = append(order, x)
	}
	walk(t)
	bound := map[*Term]string{}
	n := 0
	for _, x := range order {
		if x != t && cnt[x] > 1 {
			s := fmt.Sprintf("s!%d", n)
			n++
			sb.WriteString("(let ((")
			sb.WriteString(s)
			sb.WriteByte(' ')
			smt1(sb, x, name, bound)
			sb.WriteString(")) ")
			bound[x] = s
		}
	}
	smt1(sb, t, name, bound)
	for i := 0; i < n; i++ {
		sb.WriteByte(')')
	}
}
