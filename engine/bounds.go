package main

import "os"

// Interval bounds of the leading bytes of symbolic keys: they settle most
// comparisons that the path condition implies without asking the solver.

// checkBounds has the solver confirm every decision by bounds.
var checkBounds = os.Getenv("VERIF_CHECKBOUNDS") != ""

type bound struct {
	t      *Term
	lo, hi uint64
}

func (st *State) bound(t *Term) (lo, hi uint64) {
	lo, hi = t.min(), t.max()
	for i := range st.bounds {
		if b := &st.bounds[i]; b.t == t {
			if b.lo > lo {
				lo = b.lo
			}
			if b.hi < hi {
				hi = b.hi
			}
			break
		}
	}
	return
}

func (st *State) tighten(t *Term, lo, hi uint64) {
	l, h := st.bound(t)
	if lo <= l && hi >= h {
		return
	}
	if lo < l {
		lo = l
	}
	if hi > h {
		hi = h
	}
	nb := make([]bound, 0, len(st.bounds)+1) // states share the old slice
	nb = append(nb, bound{t, lo, hi})
	for _, b := range st.bounds {
		if b.t != t {
			nb = append(nb, b)
		}
	}
	st.bounds = nb
}

// leading returns the number made of the leading symbolic lanes of x (at most
// three, most significant first), and of the constants that face them.
func (c *TermCtx) leading(x, y []*Term) (t *Term, k uint64, n int) {
	for n < len(x) && n < 3 && !x[n].isConst() && y[n].isConst() {
		k = k<<8 | y[n].k
		n++
	}
	switch n {
	case 0:
		return nil, 0, 0
	case 1:
		return x[0], k, 1
	}
	r := make([]*Term, n)
	for i := range r {
		r[i] = x[n-1-i]
	}
	return c.Lanes(r), k, n
}

// number strips the leading zero bytes of a term.
func (c *TermCtx) number(t *Term) *Term {
	if t.op == OpLanes {
		n := len(t.args)
		for n > 1 && t.args[n-1].isConst() && t.args[n-1].k == 0 {
			n--
		}
		if n == 1 {
			return t.args[0]
		}
		return c.Lanes(t.args[:n])
	}
	if t.op == OpZext {
		return c.number(t.a)
	}
	return t
}

// compared describes a comparison of a number x with k: lt when x comes first,
// gt when k does, eq; exact tells whether x and k are all that is compared.
func (st *State) compared(t *Term) (x *Term, k uint64, kind Op, swapped, exact bool) {
	c := st.w.ctx
	switch t.op {
	case OpUlt, OpEq:
		if t.a.w == 0 {
			return
		}
		if t.b.isConst() {
			return c.number(t.a), t.b.k, t.op, false, true
		}
		if t.a.isConst() {
			return c.number(t.b), t.a.k, t.op, true, true
		}
	case OpLexLt, OpBytesEq:
		n := len(t.args) / 2
		a, b := t.args[:n], t.args[n:]
		kind = OpUlt
		if t.op == OpBytesEq {
			kind = OpEq
		}
		if x, k, m := c.leading(a, b); m > 0 {
			return x, k, kind, false, m == n
		}
		if x, k, m := c.leading(b, a); m > 0 {
			return x, k, kind, true, m == n
		}
	}
	return
}

// learnBounds records what the truth value v of t implies.
func (st *State) learnBounds(t *Term, v bool) {
	if x, lo, hi := st.implied(t, v); x != nil {
		st.tighten(x, lo, hi)
	}
}

// implied gives a number and the bounds that the truth value v of t puts on it.
func (st *State) implied(t *Term, v bool) (x *Term, lo, hi uint64) {
	switch t.op {
	case OpNot:
		return st.implied(t.a, !v)
	case OpAnd: // of two conjuncts one is false
		if v {
			return nil, 0, 0
		}
		x, l1, h1 := st.implied(t.a, false)
		y, l2, h2 := st.implied(t.b, false)
		if x == nil || x != y {
			return nil, 0, 0
		}
		if l2 < l1 {
			l1 = l2
		}
		if h2 > h1 {
			h1 = h2
		}
		return x, l1, h1
	}
	x, k, kind, swapped, exact := st.compared(t)
	if x == nil || x.isConst() {
		return nil, 0, 0
	}
	lo, hi = uint64(0), ^uint64(0)
	switch {
	case kind == OpEq && v:
		lo, hi = k, k
	case kind == OpEq:
		l, h := st.bound(x)
		if exact && l == k && l < h {
			lo = k + 1
		}
		if exact && h == k && l < h {
			hi = k - 1
		}
	case v != swapped: // x < k, or not k < x: x <= k
		hi = k
		if v && exact && k > 0 {
			hi = k - 1
		}
	default: // k < x, or not x < k: x >= k
		lo = k
		if v && exact && k < ^uint64(0) {
			lo = k + 1
		}
	}
	return x, lo, hi
}

// decideBounds settles a condition from the recorded bounds.
func (st *State) decideBounds(t *Term) (v, ok bool) {
	switch t.op {
	case OpNot:
		v, ok = st.decideBounds(t.a)
		return !v, ok
	case OpAnd:
		v1, ok1 := st.decideKnown(t.a)
		if ok1 && !v1 {
			return false, true
		}
		v2, ok2 := st.decideKnown(t.b)
		if ok2 && !v2 {
			return false, true
		}
		return true, ok1 && ok2
	}
	x, k, kind, swapped, exact := st.compared(t)
	if x == nil {
		return
	}
	lo, hi := st.bound(x)
	switch {
	case kind == OpEq:
		if k < lo || k > hi {
			return false, true
		}
		return true, exact && lo == hi
	case !swapped: // x < k?
		if hi < k {
			return true, true
		}
		return false, lo > k || exact && lo >= k
	default: // k < x?
		if lo > k {
			return true, true
		}
		return false, hi < k || exact && hi <= k
	}
}

func (st *State) decideKnown(t *Term) (v, ok bool) {
	if v, ok = st.lookupKnown(t); ok {
		return
	}
	return st.decideBounds(t)
}
