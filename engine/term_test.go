package main

import (
	"math/rand"
	"testing"
)

// Simplified terms and known bits agree with direct evaluation.
func TestTerms(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for round := 0; round < 3000; round++ {
		c := newTermCtx()
		m := make([]Model, 8)
		for i := range m {
			m[i] = Model{}
		}
		widths := []uint8{1, 4, 8, 16, 64}
		var ts []*Term
		want := map[*Term][]uint64{}
		addT := func(x *Term, v []uint64) {
			ts = append(ts, x)
			for i := range m {
				got := m[i].Eval(x)
				if got != v[i] {
					t.Fatalf("round %d: %v = %#x, want %#x (last %v)", round, x, got, v[i], ts)
				}
				if x.w > 0 && (got&x.kz != 0 || ^got&x.ko != 0) {
					t.Fatalf("round %d: %v = %#x, known %#x/%#x", round, x, got, x.kz, x.ko)
				}
			}
			want[x] = v
		}
		for i := 0; i < 5; i++ {
			w := widths[r.Intn(len(widths))]
			x := c.Var(string(rune('a'+i)), w)
			v := make([]uint64, len(m))
			for j := range m {
				v[j] = r.Uint64() & mask(w)
				if r.Intn(3) == 0 {
					v[j] = mask(w) &^ (v[j] & 1)
				}
				m[j][x] = v[j]
			}
			addT(x, v)
			k := r.Uint64() & mask(w)
			if r.Intn(2) == 0 {
				k &= 15
			}
			kv := make([]uint64, len(m))
			for j := range kv {
				kv[j] = k
			}
			addT(c.Const(k, w), kv)
		}
		each := func(f func(i int) uint64) []uint64 {
			v := make([]uint64, len(m))
			for i := range v {
				v[i] = f(i)
			}
			return v
		}
		var preds []*Term
		for step := 0; step < 40; step++ {
			a := ts[r.Intn(len(ts))]
			va := want[a]
			var same []*Term
			for _, x := range ts {
				if x.w == a.w {
					same = append(same, x)
				}
			}
			b := same[r.Intn(len(same))]
			vb := want[b]
			switch r.Intn(12) {
			case 0:
				w := a.w + uint8(r.Intn(int(65-a.w)))
				addT(c.Zext(a, w), va)
			case 1:
				w := a.w + uint8(r.Intn(int(65-a.w)))
				addT(c.Sext(a, w), each(func(i int) uint64 { return uint64(sext64(va[i], a.w)) & mask(w) }))
			case 2:
				lo := uint8(r.Intn(int(a.w)))
				w := 1 + uint8(r.Intn(int(a.w-lo)))
				addT(c.Extract(a, lo, w), each(func(i int) uint64 { return va[i] >> lo & mask(w) }))
			case 3:
				addT(c.BNot(a), each(func(i int) uint64 { return ^va[i] & mask(a.w) }))
			case 4:
				addT(c.Neg(a), each(func(i int) uint64 { return -va[i] & mask(a.w) }))
			case 5:
				var p *Term
				var f func(i int) bool
				switch r.Intn(3) {
				case 0:
					p, f = c.Eq(a, b), func(i int) bool { return va[i] == vb[i] }
				case 1:
					p, f = c.Ult(a, b), func(i int) bool { return va[i] < vb[i] }
				case 2:
					p, f = c.Slt(a, b), func(i int) bool { return sext64(va[i], a.w) < sext64(vb[i], a.w) }
				}
				for i := range m {
					if got := m[i].Eval(p) != 0; got != f(i) {
						t.Fatalf("round %d: %v = %v", round, p, got)
					}
				}
				preds = append(preds, p)
			case 6:
				if len(preds) > 0 {
					p := preds[r.Intn(len(preds))]
					addT(c.Ite(p, a, b), each(func(i int) uint64 {
						if m[i].Eval(p) != 0 {
							return va[i]
						}
						return vb[i]
					}))
				}
			case 7:
				var ls []*Term
				for _, x := range ts {
					if x.w == 8 && len(ls) < 8 && r.Intn(2) == 0 {
						ls = append(ls, x)
					}
				}
				if n := len(ls); n == 2 || n == 4 || n == 8 {
					addT(c.Lanes(ls), each(func(i int) (v uint64) {
						for j, l := range ls {
							v |= want[l][i] << (8 * uint(j))
						}
						return v
					}))
				}
			default:
				op := OpAdd + Op(r.Intn(int(OpSrem-OpAdd)+1))
				if op >= OpShl && op <= OpAshr && r.Intn(2) == 0 {
					k := uint64(r.Intn(int(a.w)))
					b = c.Const(k, a.w)
					vb = each(func(int) uint64 { return k & mask(a.w) })
				}
				addT(c.Bin(op, a, b), each(func(i int) uint64 { v, _ := foldBin(op, va[i], vb[i], a.w); return v }))
			}
		}
	}
}
