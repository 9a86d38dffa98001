package main

import (
	"math/rand"
	"testing"
)

// Every simplification must agree with constant folding.
func TestSimplifier(t *testing.T) {
	consts := []uint64{0, 1, 2, 3, 4, 7, 10, 24, 60, 3600, 86400, 1000, 1000000000, 146097, 2939745, 0xe7791f700, 1 << 31, 1 << 32, 1 << 63, ^uint64(0), 0x7fffffefa4db3d00, 12, 36, 48}
	for it := 0; it < 600000; it++ {
		w := []uint8{8, 16, 32, 64}[rand.Intn(4)]
		nv := 2
		vw := uint8(1 + rand.Intn(int(w)))
		vals := map[*Term]uint64{}
		type pr struct{ s, c *Term }
		var pool []pr
		for i := 0; i < nv; i++ {
			v := Var("tv"+string(rune(48+vw))+string(rune(97+i)), vw)
			x := rand.Uint64() >> uint(rand.Intn(64)) & mask(vw)
			vals[v] = x
			pool = append(pool, pr{Zext(w, v), BV(w, x)})
		}
		for k := 0; k < 6; k++ {
			a := pool[rand.Intn(len(pool))]
			b := pool[rand.Intn(len(pool))]
			if rand.Intn(3) > 0 {
				c := consts[rand.Intn(len(consts))]
				b = pr{BV(w, c), BV(w, c)}
			}
			var f func(a, b *Term) *Term
			switch rand.Intn(16) {
			case 0, 1:
				f = Add
			case 2:
				f = Sub
			case 3, 4:
				f = Mul
			case 5, 6:
				f = Udiv
			case 7, 8:
				f = Urem
			case 9:
				f = Sdiv
			case 10:
				f = Srem
			case 12:
				m := BV(w, 1<<uint(rand.Intn(6))-1)
				f = func(a, b *Term) *Term { return BOr(a, m) }
			case 13:
				lo := uint8(rand.Intn(int(w)))
				hi := lo + uint8(rand.Intn(int(w-lo)))
				f = func(a, b *Term) *Term { return Zext(w, Extract(hi, lo, a)) }
			case 14:
				n := BV(w, uint64(rand.Intn(int(w))))
				f = func(a, b *Term) *Term { return Shl(a, n) }
			case 15:
				n := uint8(1 + rand.Intn(int(w)-1))
				m := BV(n, rand.Uint64())
				f = func(a, b *Term) *Term { return Concat(Extract(w-n-1, 0, a), m) }
			case 11:
				f = func(a, b *Term) *Term { return Neg(a) }
			}
			if b.c.val == 0 {
				f = Add
			}
			n := pr{f(a.s, b.s), f(a.c, b.c)}
			if got := eval(n.s, vals, map[*Term]uint64{}); got != n.c.val {
				t.Fatalf("w=%d: %s = %x want %x (vals %v)", w, n.s, got, n.c.val, vals)
			}
			if n.c.val > umax(n.s) || n.c.val < umin(n.s) {
				t.Fatalf("range of %s", n.s)
			}
			for _, g := range []func(a, b *Term) *Term{Ult, Slt, Eq, Ult, Slt} {
				x := pool[rand.Intn(len(pool))]
				if rand.Intn(3) == 0 {
					c := BV(w, consts[rand.Intn(len(consts))])
					x = pr{Add(x.s, c), Add(x.c, c)}
				}
				if got := eval(g(n.s, x.s), vals, map[*Term]uint64{}); (got != 0) != g(n.c, x.c).IsTrue() {
					t.Fatalf("compare %s with %s", n.s, x.s)
				}
			}
			pool = append(pool, n)
		}
	}
}
