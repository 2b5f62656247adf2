package main

// Hash-consed bit-vector / boolean terms with a small simplifier and a
// concrete evaluator. Width 0 means boolean. Bit-vector widths are 1..64.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // boolean not
	OpAnd // boolean and
	OpOr  // boolean or
	OpEq  // bv or bool equality
	OpUlt
	OpSlt
	OpIte
	OpBNot
	OpNeg
	OpAdd
	OpSub
	OpMul
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLshr
	OpAshr
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpExtract // k = low bit; width = w
	OpZext
	OpSext
	OpLanes // args: byte lanes, least significant first
	OpLexLt // args: 2n byte terms: a0..an-1,b0..bn-1 ; unsigned lexicographic a<b
	OpBytesEq
)

var opName = [...]string{"const", "var", "not", "and", "or", "=", "bvult", "bvslt", "ite", "bvnot", "bvneg", "bvadd", "bvsub", "bvmul",
	"bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "extract", "zext", "sext", "lanes", "lexlt", "byteseq"}

type Term struct {
	op      Op
	w       uint8
	id      int32
	k       uint64
	a, b, c *Term
	args    []*Term
	name    string
	kz, ko  uint64 // bits known to be zero, to be one (bit-vectors only)
}

// max and min bound the unsigned value of a bit-vector term.
func (t *Term) max() uint64 { return mask(t.w) &^ t.kz }
func (t *Term) min() uint64 { return t.ko }

type tkey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c *Term
	s       string
}

type TermCtx struct {
	tab    map[tkey]*Term
	vars   []*Term
	nextID int32
	tTrue  *Term
	tFalse *Term
	bytes  [256]*Term
	uninit *Term // marker, never used in formulas
}

func newTermCtx() *TermCtx {
	c := &TermCtx{tab: map[tkey]*Term{}}
	c.tTrue = c.mk(OpConst, 0, 1, nil, nil, nil, nil, "")
	c.tFalse = c.mk(OpConst, 0, 0, nil, nil, nil, nil, "")
	c.uninit = &Term{op: OpVar, w: 8, id: -1, name: "uninit!"}
	return c
}

func (c *TermCtx) mk(op Op, w uint8, k uint64, a, b, d *Term, args []*Term, s string) *Term {
	key := tkey{op, w, k, a, b, d, s}
	if args != nil {
		var sb strings.Builder
		sb.WriteString(s)
		for _, t := range args {
			id := t.id
			sb.WriteByte(byte(id))
			sb.WriteByte(byte(id >> 8))
			sb.WriteByte(byte(id >> 16))
			sb.WriteByte(byte(id >> 24))
		}
		key.s = sb.String()
	}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, id: c.nextID, k: k, a: a, b: b, c: d, args: args, name: s}
	if w > 0 {
		t.known()
		if m := mask(w); op != OpConst && t.kz|t.ko == m {
			return c.Const(t.ko, w)
		}
	}
	c.nextID++
	c.tab[key] = t
	return t
}

// known computes the known bits of a new bit-vector term from its operands.
func (t *Term) known() {
	m := mask(t.w)
	a, b := t.a, t.b
	switch t.op {
	case OpConst:
		t.ko, t.kz = t.k, ^t.k
	case OpIte:
		t.kz, t.ko = b.kz&t.c.kz, b.ko&t.c.ko
	case OpBNot:
		t.kz, t.ko = a.ko, a.kz
	case OpBAnd:
		t.kz, t.ko = a.kz|b.kz, a.ko&b.ko
	case OpBOr:
		t.kz, t.ko = a.kz&b.kz, a.ko|b.ko
	case OpBXor:
		t.kz, t.ko = a.kz&b.kz|a.ko&b.ko, a.kz&b.ko|a.ko&b.kz
	case OpAdd:
		t.kz, t.ko = knownSum(a.kz, a.ko, b.kz, b.ko, 0, t.w)
	case OpSub:
		t.kz, t.ko = knownSum(a.kz, a.ko, b.ko, b.kz, 1, t.w)
	case OpMul:
		tz := bits.TrailingZeros64(^(a.kz | ^m)) + bits.TrailingZeros64(^(b.kz | ^m))
		if tz < 64 {
			t.kz = 1<<uint(tz) - 1
		} else {
			t.kz = m
		}
		if hi, lo := bits.Mul64(a.max(), b.max()); hi == 0 && lo <= m {
			t.kz |= ^mask(uint8(bits.Len64(lo)))
			if lo == 0 {
				t.kz = m
			}
		}
	case OpShl:
		if b.isConst() && b.k < uint64(t.w) {
			t.kz, t.ko = a.kz<<b.k|(1<<b.k-1), a.ko<<b.k
		}
	case OpLshr:
		if b.isConst() && b.k < uint64(t.w) {
			t.kz, t.ko = a.kz>>b.k|^(m>>b.k), a.ko>>b.k
		}
	case OpAshr:
		if b.isConst() && b.k < uint64(t.w) {
			t.kz, t.ko = (a.kz&m)>>b.k, a.ko>>b.k
			top := m &^ (m >> b.k)
			if a.kz>>(t.w-1)&1 == 1 {
				t.kz |= top
			}
			if a.ko>>(t.w-1)&1 == 1 {
				t.ko |= top
			}
		}
	case OpUdiv:
		if b.isConst() && b.k > 0 {
			t.kz = ^lenMask(a.max() / b.k)
		}
	case OpUrem:
		if b.isConst() && b.k > 0 {
			t.kz = ^lenMask(b.k - 1)
		}
		t.kz |= ^lenMask(a.max())
	case OpExtract:
		t.kz, t.ko = a.kz>>t.k, a.ko>>t.k
	case OpZext:
		t.kz, t.ko = a.kz|^mask(a.w), a.ko
	case OpSext:
		am := mask(a.w)
		t.kz, t.ko = a.kz&am, a.ko
		if a.kz>>(a.w-1)&1 == 1 {
			t.kz |= ^am
		}
		if a.ko>>(a.w-1)&1 == 1 {
			t.ko |= ^am
		}
	case OpLanes:
		for i, l := range t.args {
			t.kz |= (l.kz & 255) << (8 * uint(i))
			t.ko |= l.ko << (8 * uint(i))
		}
	}
	t.kz &= m
	t.ko &= m
}

func lenMask(x uint64) uint64 {
	if x == 0 {
		return 0
	}
	return mask(uint8(bits.Len64(x)))
}

// knownSum gives the known bits of x+y+carry.
func knownSum(xz, xo, yz, yo, carry uint64, w uint8) (uint64, uint64) {
	hi := ^xz + ^yz + carry
	lo := xo + yo + carry
	known := (xz | xo) & (yz | yo) & (^(hi ^ xz ^ yz) | (lo ^ xo ^ yo))
	z, o := ^hi&known, lo&known
	// leading zeros, if the greatest sum does not overflow
	m := mask(w)
	if s, c := bits.Add64(m&^xz, m&^yz, carry); c == 0 && s <= m {
		z |= ^lenMask(s)
	}
	return z & m, o & m
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (t *Term) isConst() bool { return t.op == OpConst }

func (c *TermCtx) Const(v uint64, w uint8) *Term {
	if w == 8 {
		v &= 255
		t := c.bytes[v]
		if t == nil {
			t = c.mk(OpConst, 8, v, nil, nil, nil, nil, "")
			c.bytes[v] = t
		}
		return t
	}
	return c.mk(OpConst, w, v&mask(w), nil, nil, nil, nil, "")
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}

func (c *TermCtx) Var(name string, w uint8) *Term {
	n := len(c.tab)
	t := c.mk(OpVar, w, 0, nil, nil, nil, nil, name)
	if len(c.tab) != n {
		c.vars = append(c.vars, t)
	}
	return t
}

func (c *TermCtx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.k == 0)
	}
	if a.op == OpNot {
		return a.a
	}
	return c.mk(OpNot, 0, 0, a, nil, nil, nil, "")
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a == c.Not(b) {
		return c.tFalse
	}
	return c.mk(OpAnd, 0, 0, a, b, nil, nil, "")
}

func (c *TermCtx) Or(a, b *Term) *Term { return c.Not(c.And(c.Not(a), c.Not(b))) }

func (c *TermCtx) Ite(p, a, b *Term) *Term {
	if p.isConst() {
		if p.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() {
			if a.k != 0 {
				return c.Or(p, b)
			}
			return c.And(c.Not(p), b)
		}
		if b.isConst() {
			if b.k != 0 {
				return c.Or(c.Not(p), a)
			}
			return c.And(p, a)
		}
	}
	return c.mk(OpIte, a.w, 0, p, a, b, nil, "")
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tTrue
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.k != 0 {
				return a
			}
			return c.Not(a)
		}
	} else if a.ko&b.kz|a.kz&b.ko != 0 {
		return c.tFalse
	}
	if b.isConst() {
		switch a.op {
		case OpIte:
			if a.b.isConst() || a.c.isConst() {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case OpZext:
			if b.k > mask(a.a.w) {
				return c.tFalse
			}
			return c.Eq(a.a, c.Const(b.k, a.a.w))
		case OpLanes:
			r := c.tTrue
			for i, l := range a.args {
				r = c.And(r, c.Eq(l, c.Const(b.k>>(8*uint(i)), 8)))
			}
			return r
		case OpAdd:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(b.k-a.b.k, a.w))
			}
		case OpBXor:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(b.k^a.b.k, a.w))
			}
		case OpMul:
			// multiplication by an odd constant is invertible
			if a.b.isConst() && a.b.k&1 == 1 {
				inv := a.b.k
				for i := 0; i < 6; i++ {
					inv *= 2 - a.b.k*inv
				}
				return c.Eq(a.a, c.Const(b.k*inv, a.w))
			}
		}
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(OpEq, 0, 0, a, b, nil, nil, "")
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.tFalse
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k < b.k)
	}
	if a.max() < b.min() {
		return c.tTrue
	}
	if a.min() >= b.max() {
		return c.tFalse
	}
	if a.op == OpZext && b.isConst() {
		if b.k > mask(a.a.w) {
			return c.tTrue
		}
		return c.Ult(a.a, c.Const(b.k, a.a.w))
	}
	if b.op == OpZext && a.isConst() {
		if a.k >= mask(b.a.w) {
			return c.tFalse
		}
		return c.Ult(c.Const(a.k, b.a.w), b.a)
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	if t := c.iteCmp(a, b, c.Ult); t != nil {
		return t
	}
	return c.mk(OpUlt, 0, 0, a, b, nil, nil, "")
}

func (c *TermCtx) iteCmp(a, b *Term, f func(a, b *Term) *Term) *Term {
	if a.op == OpIte && b.isConst() && (a.b.isConst() || a.c.isConst()) {
		return c.Ite(a.a, f(a.b, b), f(a.c, b))
	}
	if b.op == OpIte && a.isConst() && (b.b.isConst() || b.c.isConst()) {
		return c.Ite(b.a, f(a, b.b), f(a, b.c))
	}
	return nil
}

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.tFalse
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sext64(a.k, a.w) < sext64(b.k, b.w))
	}
	sign := uint64(1) << (a.w - 1)
	if (a.kz|a.ko)&(b.kz|b.ko)&sign != 0 {
		if sa, sb := a.ko&sign, b.ko&sign; sa != sb {
			return c.Bool(sa != 0)
		}
		return c.Ult(a, b)
	}
	if t := c.iteCmp(a, b, c.Slt); t != nil {
		return t
	}
	if a.op == OpZext && b.isConst() {
		if sext64(b.k, b.w) < 0 {
			return c.tFalse
		}
		return c.Ult(a, b)
	}
	if b.op == OpZext && a.isConst() {
		if sext64(a.k, a.w) < 0 {
			return c.tTrue
		}
		return c.Ult(a, b)
	}
	if a.op == OpZext && b.op == OpZext {
		return c.Ult(a, b)
	}
	return c.mk(OpSlt, 0, 0, a, b, nil, nil, "")
}

func foldBin(op Op, x, y uint64, w uint8) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m, true
	case OpSub:
		return (x - y) & m, true
	case OpMul:
		return (x * y) & m, true
	case OpBAnd:
		return x & y, true
	case OpBOr:
		return x | y, true
	case OpBXor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OpLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAshr:
		s := sext64(x, w)
		if y >= uint64(w) {
			y = 63
		}
		return uint64(s>>y) & m, true
	case OpUdiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OpUrem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpSdiv:
		if y == 0 {
			if sext64(x, w) < 0 {
				return 1, true
			}
			return m, true
		}
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OpSrem:
		if y == 0 {
			return x, true
		}
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	}
	return 0, false
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		if v, ok := foldBin(op, a.k, b.k, w); ok {
			return c.Const(v, w)
		}
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if a.op == OpIte && b.isConst() && (a.b.isConst() || a.c.isConst()) {
		return c.Ite(a.a, c.Bin(op, a.b, b), c.Bin(op, a.c, b))
	}
	if b.op == OpIte && a.isConst() && (b.b.isConst() || b.c.isConst()) {
		return c.Ite(b.a, c.Bin(op, a, b.b), c.Bin(op, a, b.c))
	}
	if b.isConst() {
		m := mask(w)
		switch op {
		case OpAdd:
			if b.k == 0 {
				return a
			}
			if a.op == OpAdd && a.b.isConst() {
				return c.Bin(OpAdd, a.a, c.Const(a.b.k+b.k, w))
			}
		case OpSub:
			return c.Bin(OpAdd, a, c.Const(-b.k, w))
		case OpMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		case OpBAnd:
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
			// low mask
			if b.k&(b.k+1) == 0 {
				n := uint8(bits.Len64(b.k))
				return c.Zext(c.Extract(a, 0, n), w)
			}
		case OpBOr:
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
		case OpBXor:
			if b.k == 0 {
				return a
			}
			if a.op == OpBXor && a.b.isConst() {
				return c.Bin(OpBXor, a.a, c.Const(a.b.k^b.k, w))
			}
		case OpShl, OpLshr:
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return c.Const(0, w)
			}
		case OpAshr:
			if b.k == 0 {
				return a
			}
			if a.kz>>(w-1)&1 == 1 {
				return c.Bin(OpLshr, a, b)
			}
		case OpUdiv:
			if b.k == 1 {
				return a
			}
			if b.k != 0 && b.k&(b.k-1) == 0 {
				return c.Bin(OpLshr, a, c.Const(uint64(bits.TrailingZeros64(b.k)), w))
			}
		case OpUrem:
			if b.k != 0 && b.k&(b.k-1) == 0 {
				return c.Bin(OpBAnd, a, c.Const(b.k-1, w))
			}
		}
	}
	// byte lanes
	if w%8 == 0 && w > 8 {
		switch op {
		case OpShl, OpLshr:
			if b.isConst() && b.k%8 == 0 {
				if la := c.lanesOf(a); la != nil {
					n := len(la)
					sh := int(b.k / 8)
					r := make([]*Term, n)
					for i := range r {
						j := i - sh
						if op == OpLshr {
							j = i + sh
						}
						if j >= 0 && j < n {
							r[i] = la[j]
						} else {
							r[i] = c.Const(0, 8)
						}
					}
					return c.Lanes(r)
				}
			}
		case OpBOr, OpBXor, OpAdd:
			la, lb := c.lanesOf(a), c.lanesOf(b)
			if la != nil && lb != nil {
				ok := true
				r := make([]*Term, len(la))
				for i := range la {
					if la[i].isConst() && la[i].k == 0 {
						r[i] = lb[i]
					} else if lb[i].isConst() && lb[i].k == 0 {
						r[i] = la[i]
					} else {
						ok = false
						break
					}
				}
				if ok {
					return c.Lanes(r)
				}
			}
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBXor:
			return c.Const(0, w)
		case OpBAnd, OpBOr:
			return a
		}
	}
	// distribute over ite with constant branches, for small things
	if a.op == OpIte && b.isConst() && a.b.isConst() && a.c.isConst() {
		return c.Ite(a.a, c.Bin(op, a.b, b), c.Bin(op, a.c, b))
	}
	return c.mk(op, w, 0, a, b, nil, nil, "")
}

// lanesOf returns the byte lanes of a term that is structurally made of lanes
// (or a constant), or nil.
func (c *TermCtx) lanesOf(a *Term) []*Term {
	n := int(a.w / 8)
	switch a.op {
	case OpLanes:
		return a.args
	case OpConst:
		r := make([]*Term, n)
		for i := range r {
			r[i] = c.Const(a.k>>(8*uint(i)), 8)
		}
		return r
	case OpZext:
		if a.a.w <= 8 {
			r := make([]*Term, n)
			r[0] = c.Zext(a.a, 8)
			for i := 1; i < n; i++ {
				r[i] = c.Const(0, 8)
			}
			return r
		}
		if a.a.w%8 == 0 {
			if l := c.lanesOf(a.a); l != nil {
				r := make([]*Term, n)
				copy(r, l)
				for i := len(l); i < n; i++ {
					r[i] = c.Const(0, 8)
				}
				return r
			}
		}
	}
	return nil
}

func (c *TermCtx) Lanes(ls []*Term) *Term {
	n := len(ls)
	w := uint8(8 * n)
	allc := true
	var k uint64
	for i, l := range ls {
		if !l.isConst() {
			allc = false
			break
		}
		k |= l.k << (8 * uint(i))
	}
	if allc {
		return c.Const(k, w)
	}
	// Lanes(extract(x,0),extract(x,8),...) -> x
	if l0 := ls[0]; l0.op == OpExtract && l0.k == 0 {
		x := l0.a
		m := int(x.w) / 8
		if int(x.w)%8 == 0 && m <= n {
			ok := true
			for i := 0; i < m; i++ {
				if !(ls[i].op == OpExtract && ls[i].a == x && ls[i].k == uint64(8*i)) {
					ok = false
					break
				}
			}
			for i := m; ok && i < n; i++ {
				if !(ls[i].isConst() && ls[i].k == 0) {
					ok = false
				}
			}
			if ok {
				return c.Zext(x, w)
			}
		}
	}
	// only lane 0 non-zero -> zext
	ok := true
	for i := 1; i < n; i++ {
		if !(ls[i].isConst() && ls[i].k == 0) {
			ok = false
			break
		}
	}
	if ok {
		return c.Zext(ls[0], w)
	}
	cp := make([]*Term, n)
	copy(cp, ls)
	return c.mk(OpLanes, w, 0, nil, nil, nil, cp, "")
}

func (c *TermCtx) BNot(a *Term) *Term {
	if a.isConst() {
		return c.Const(^a.k, a.w)
	}
	if a.op == OpBNot {
		return a.a
	}
	return c.mk(OpBNot, a.w, 0, a, nil, nil, nil, "")
}

func (c *TermCtx) Neg(a *Term) *Term {
	if a.isConst() {
		return c.Const(-a.k, a.w)
	}
	return c.mk(OpNeg, a.w, 0, a, nil, nil, nil, "")
}

func (c *TermCtx) Extract(a *Term, lo uint8, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	switch a.op {
	case OpConst:
		return c.Const(a.k>>lo, w)
	case OpExtract:
		return c.Extract(a.a, lo+uint8(a.k), w)
	case OpZext:
		if lo+w <= a.a.w {
			return c.Extract(a.a, lo, w)
		}
		if lo >= a.a.w {
			return c.Const(0, w)
		}
		return c.Zext(c.Extract(a.a, lo, a.a.w-lo), w)
	case OpLanes:
		if lo%8 == 0 && w%8 == 0 {
			i := int(lo / 8)
			n := int(w / 8)
			if n == 1 {
				return a.args[i]
			}
			return c.Lanes(a.args[i : i+n])
		}
		i := int(lo / 8)
		if int(lo+w-1)/8 == i {
			return c.Extract(a.args[i], lo%8, w)
		}
		if lo == 0 {
			n := (int(w) + 7) / 8
			if n < len(a.args) {
				return c.Extract(c.Lanes(a.args[:n]), 0, w)
			}
		}
	case OpIte:
		if a.b.isConst() || a.c.isConst() {
			return c.Ite(a.a, c.Extract(a.b, lo, w), c.Extract(a.c, lo, w))
		}
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(a.a, 0, w), c.Extract(a.b, 0, w))
		}
	case OpBAnd, OpBOr, OpBXor:
		return c.Bin(a.op, c.Extract(a.a, lo, w), c.Extract(a.b, lo, w))
	case OpBNot:
		return c.BNot(c.Extract(a.a, lo, w))
	case OpShl:
		if lo == 0 && a.b.isConst() {
			if a.b.k >= uint64(w) {
				return c.Const(0, w)
			}
			return c.Bin(OpShl, c.Extract(a.a, 0, w), c.Const(a.b.k, w))
		}
	case OpLshr, OpAshr:
		if a.b.isConst() && a.b.k < 64 && uint64(lo)+uint64(w)+a.b.k <= uint64(a.w) {
			return c.Extract(a.a, lo+uint8(a.b.k), w)
		}
	}
	return c.mk(OpExtract, w, uint64(lo), a, nil, nil, nil, "")
}

func (c *TermCtx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(a.k, w)
	}
	if a.op == OpZext {
		return c.Zext(a.a, w)
	}
	if a.op == OpLanes && w%8 == 0 {
		r := make([]*Term, w/8)
		copy(r, a.args)
		for i := len(a.args); i < len(r); i++ {
			r[i] = c.Const(0, 8)
		}
		return c.Lanes(r)
	}
	return c.mk(OpZext, w, 0, a, nil, nil, nil, "")
}

func (c *TermCtx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(uint64(sext64(a.k, a.w)), w)
	}
	if a.op == OpZext {
		return c.Zext(a.a, w)
	}
	return c.mk(OpSext, w, 0, a, nil, nil, nil, "")
}

// LexLt: a < b as equal-length byte strings.
func (c *TermCtx) LexLt(a, b []*Term) *Term {
	for len(a) > 0 && a[0] == b[0] {
		a, b = a[1:], b[1:]
	}
	// truncate after first definitely-different position
	for i := range a {
		if a[i].isConst() && b[i].isConst() && a[i] != b[i] {
			a, b = a[:i+1], b[:i+1]
			break
		}
	}
	for len(a) > 0 && a[len(a)-1] == b[len(b)-1] {
		a, b = a[:len(a)-1], b[:len(b)-1]
	}
	if len(a) == 0 {
		return c.tFalse
	}
	if len(a) == 1 {
		return c.Ult(a[0], b[0])
	}
	args := make([]*Term, 0, 2*len(a))
	args = append(args, a...)
	args = append(args, b...)
	return c.mk(OpLexLt, 0, 0, nil, nil, nil, args, "")
}

func (c *TermCtx) BytesEq(a, b []*Term) *Term {
	var x, y []*Term
	for i := range a {
		if a[i] == b[i] {
			continue
		}
		if a[i].isConst() && b[i].isConst() {
			return c.tFalse
		}
		p, q := a[i], b[i]
		if p.isConst() {
			p, q = q, p
		}
		x = append(x, p)
		y = append(y, q)
	}
	if len(x) == 0 {
		return c.tTrue
	}
	if len(x) <= 2 {
		r := c.tTrue
		for i := range x {
			r = c.And(r, c.Eq(x[i], y[i]))
		}
		return r
	}
	args := append(append(make([]*Term, 0, 2*len(x)), x...), y...)
	return c.mk(OpBytesEq, 0, 0, nil, nil, nil, args, "")
}

// ---- evaluation under a model (missing vars = 0)

type Model map[*Term]uint64

type evaluator struct {
	m    Model
	memo map[*Term]uint64
}

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		return e.m[t] & mask1(t.w)
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpNot:
		r = 1 - e.eval(t.a)
	case OpAnd:
		r = e.eval(t.a)
		if r != 0 {
			r = e.eval(t.b)
		}
	case OpOr:
		r = e.eval(t.a)
		if r == 0 {
			r = e.eval(t.b)
		}
	case OpEq:
		r = b2u(e.eval(t.a) == e.eval(t.b))
	case OpUlt:
		r = b2u(e.eval(t.a) < e.eval(t.b))
	case OpSlt:
		r = b2u(sext64(e.eval(t.a), t.a.w) < sext64(e.eval(t.b), t.b.w))
	case OpIte:
		if e.eval(t.a) != 0 {
			r = e.eval(t.b)
		} else {
			r = e.eval(t.c)
		}
	case OpBNot:
		r = ^e.eval(t.a) & mask(t.w)
	case OpNeg:
		r = -e.eval(t.a) & mask(t.w)
	case OpExtract:
		r = (e.eval(t.a) >> t.k) & mask(t.w)
	case OpZext:
		r = e.eval(t.a)
	case OpSext:
		r = uint64(sext64(e.eval(t.a), t.a.w)) & mask(t.w)
	case OpLanes:
		for i, l := range t.args {
			r |= e.eval(l) << (8 * uint(i))
		}
	case OpLexLt:
		n := len(t.args) / 2
		for i := 0; i < n; i++ {
			x, y := e.eval(t.args[i]), e.eval(t.args[n+i])
			if x != y {
				r = b2u(x < y)
				break
			}
		}
	case OpBytesEq:
		n := len(t.args) / 2
		r = 1
		for i := 0; i < n; i++ {
			if e.eval(t.args[i]) != e.eval(t.args[n+i]) {
				r = 0
				break
			}
		}
	default:
		r, _ = foldBin(t.op, e.eval(t.a), e.eval(t.b), t.w)
	}
	e.memo[t] = r
	return r
}

func mask1(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func (m Model) Eval(t *Term) uint64 {
	e := evaluator{m, map[*Term]uint64{}}
	return e.eval(t)
}

// ---- SMT-LIB printing

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(v uint64, w uint8) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

func (t *Term) String() string {
	switch t.op {
	case OpConst:
		return constStr(t.k, t.w)
	case OpVar:
		return t.name
	}
	var ps []string
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			ps = append(ps, x.String())
		}
	}
	for _, x := range t.args {
		ps = append(ps, x.String())
	}
	return fmt.Sprintf("(%s/%d:%d %s)", opName[t.op], t.w, t.k, strings.Join(ps, " "))
}
