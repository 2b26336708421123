package main

import "math/bits"

// Unsigned intervals of terms under the path condition. They decide most of
// the overflow and digit checks of number parsing without the solver.

type rng struct{ lo, hi uint64 }

type rngEnt struct {
	r   rng
	ver int
}

// learn narrows the interval of a variable from an atom that holds.
func (w *Worker) learn(c *Term) {
	neg := false
	if c.Op == ONot {
		neg, c = true, c.A
	}
	switch c.Op {
	case OUle, OUlt, OEq:
	default:
		return
	}
	a, b := c.A, c.B
	strip := func(t *Term) *Term {
		for t.Op == OZext {
			t = t.A
		}
		return t
	}
	a, b = strip(a), strip(b)
	set := func(v *Term, lo, hi uint64) {
		cur, ok := w.ranges[v.V]
		if !ok {
			cur = rng{0, maskW(v.W)}
		}
		n := cur
		if lo > n.lo {
			n.lo = lo
		}
		if hi < n.hi {
			n.hi = hi
		}
		if n != cur && n.lo <= n.hi {
			w.ranges[v.V] = n
			w.rngVer++
		}
	}
	all := ^uint64(0)
	switch {
	case a.Op == OVar && a.W > 0 && b.isC():
		k := b.V
		switch {
		case c.Op == OEq && !neg:
			set(a, k, k)
		case c.Op == OUle && !neg:
			set(a, 0, k)
		case c.Op == OUle && k < all:
			set(a, k+1, all)
		case c.Op == OUlt && !neg && k > 0:
			set(a, 0, k-1)
		case c.Op == OUlt && neg:
			set(a, k, all)
		}
	case b.Op == OVar && b.W > 0 && a.isC():
		k := a.V
		switch {
		case c.Op == OEq && !neg:
			set(b, k, k)
		case c.Op == OUle && !neg:
			set(b, k, all)
		case c.Op == OUle && neg && k > 0:
			set(b, 0, k-1)
		case c.Op == OUlt && !neg && k < all:
			set(b, k+1, all)
		case c.Op == OUlt && neg:
			set(b, 0, k)
		}
	}
}

func (w *Worker) rngOf(t *Term) rng {
	switch t.Op {
	case OConst:
		return rng{t.V, t.V}
	case OVar:
		if r, ok := w.ranges[t.V]; ok {
			return r
		}
		return rng{0, maskW(t.W)}
	}
	if e, ok := w.rngMemo[t]; ok && e.ver == w.rngVer {
		return e.r
	}
	r := w.rng1(t)
	w.rngMemo[t] = rngEnt{r, w.rngVer}
	return r
}

func (w *Worker) rng1(t *Term) rng {
	m := maskW(t.W)
	full := rng{0, m}
	switch t.Op {
	case OZext:
		return w.rngOf(t.A)
	case OSext:
		if a := w.rngOf(t.A); a.hi <= maskW(t.A.W)>>1 {
			return a
		}
	case OExtract:
		if a := w.rngOf(t.A); a.hi <= m {
			return a
		}
	case OIte:
		a, b := w.rngOf(t.B), w.rngOf(t.C)
		return rng{min(a.lo, b.lo), max(a.hi, b.hi)}
	case OAdd:
		a, b := w.rngOf(t.A), w.rngOf(t.B)
		if s, c := bits.Add64(a.hi, b.hi, 0); c == 0 && s <= m {
			return rng{a.lo + b.lo, s}
		}
		// adding a negative constant
		if b.lo == b.hi && b.lo > m>>1 {
			if d := (m - b.lo) + 1; d != 0 && a.lo >= d {
				return rng{a.lo - d, a.hi - d}
			}
		}
		if a.lo == a.hi && a.lo > m>>1 {
			if d := (m - a.lo) + 1; d != 0 && b.lo >= d {
				return rng{b.lo - d, b.hi - d}
			}
		}
	case OSub:
		a, b := w.rngOf(t.A), w.rngOf(t.B)
		if a.lo >= b.hi {
			return rng{a.lo - b.hi, a.hi - b.lo}
		}
	case OMul:
		a, b := w.rngOf(t.A), w.rngOf(t.B)
		if h, l := bits.Mul64(a.hi, b.hi); h == 0 && l <= m {
			return rng{a.lo * b.lo, l}
		}
	case OUDiv, OSDiv:
		a, b := w.rngOf(t.A), w.rngOf(t.B)
		if b.lo > 0 && (t.Op == OUDiv || a.hi <= m>>1 && b.hi <= m>>1) {
			return rng{a.lo / b.hi, a.hi / b.lo}
		}
	case OURem, OSRem:
		a, b := w.rngOf(t.A), w.rngOf(t.B)
		if b.lo > 0 && (t.Op == OURem || a.hi <= m>>1 && b.hi <= m>>1) {
			if a.hi < b.lo {
				return a
			}
			return rng{0, min(a.hi, b.hi-1)}
		}
	case OBAnd:
		a, b := w.rngOf(t.A), w.rngOf(t.B)
		return rng{0, min(a.hi, b.hi)}
	case OBOr:
		a, b := w.rngOf(t.A), w.rngOf(t.B)
		hi := uint64(1)<<bits.Len64(a.hi|b.hi) - 1
		return rng{max(a.lo, b.lo), hi & m}
	case OShl:
		a, b := w.rngOf(t.A), w.rngOf(t.B)
		if b.lo == b.hi && b.lo < 64 && a.hi <= m>>b.lo {
			return rng{a.lo << b.lo, a.hi << b.lo}
		}
	case OLshr:
		a, b := w.rngOf(t.A), w.rngOf(t.B)
		if b.lo == b.hi && b.lo < 64 {
			return rng{a.lo >> b.lo, a.hi >> b.lo}
		}
		return rng{0, a.hi}
	}
	return full
}

// byRange decides a comparison from the intervals of its operands.
func (w *Worker) byRange(c *Term) (bool, bool) {
	switch c.Op {
	case OEq, OUlt, OUle, OSlt, OSle:
	default:
		return false, false
	}
	if c.A.W == 0 {
		return false, false
	}
	a, b := w.rngOf(c.A), w.rngOf(c.B)
	half := maskW(c.A.W) >> 1
	// x + y against x, when the sum does not wrap
	signed := c.Op == OSlt || c.Op == OSle
	if !signed || a.hi <= half && b.hi <= half {
		if c.Op == OUlt || c.Op == OSlt {
			if w.sumOf(c.A, c.B) {
				return false, true
			}
		} else if c.Op != OEq && w.sumOf(c.B, c.A) {
			return true, true
		}
	}
	switch c.Op {
	case OEq:
		if a.hi < b.lo || b.hi < a.lo {
			return false, true
		}
		return false, false
	case OSlt, OSle:
		if a.hi > half || b.hi > half {
			// one side negative for sure
			if a.lo > half && b.hi <= half {
				return true, true
			}
			if b.lo > half && a.hi <= half {
				return false, true
			}
			return false, false
		}
	}
	if c.Op == OUlt || c.Op == OSlt {
		if a.hi < b.lo {
			return true, true
		}
		if a.lo >= b.hi {
			return false, true
		}
		return false, false
	}
	if a.hi <= b.lo {
		return true, true
	}
	if a.lo > b.hi {
		return false, true
	}
	return false, false
}

// sumOf tells that s is x plus something and does not wrap.
func (w *Worker) sumOf(s, x *Term) bool {
	if s.Op != OAdd || s.A != x && s.B != x {
		return false
	}
	a, b := w.rngOf(s.A), w.rngOf(s.B)
	t, c := bits.Add64(a.hi, b.hi, 0)
	return c == 0 && t <= maskW(s.W)
}
