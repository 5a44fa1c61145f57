package cons

import (
	"fmt"

	"github.com/icon-project/goloop/consensus"

	"vgo/mc"
)

// Bits checks sets of parts and votes against sets of numbers.
func Bits(ctx *mc.Ctx) {
	fill := []func(i int) bool{
		func(i int) bool { return false }, func(i int) bool { return true }, func(i int) bool { return i%2 == 0 }, func(i int) bool { return i%63 == 0 },
		func(i int) bool { return i == 0 }, func(i int) bool { return i == 63 }, func(i int) bool { return i == 64 }, func(i int) bool { return i >= 64 },
	}
	make1 := func(n int, f func(int) bool) *consensus.BitArray {
		b := consensus.NewBitArray(n)
		for i := -1; i <= n; i++ {
			if i >= 0 {
				b.Put(i, f(i)) // what is not in it is left alone
			}
		}
		return b
	}
	is := func(what string, b *consensus.BitArray, n int, f func(int) bool) {
		ctx.Trans(1)
		if b.Len() != n {
			ctx.Fail("%s: %d bits instead of %d", what, b.Len(), n)
			return
		}
		any := false
		for i := 0; i < n; i++ {
			any = any || f(i)
			if b.Get(i) != f(i) {
				ctx.Fail("%s: bit %d is %v", what, i, b.Get(i))
				return
			}
		}
		for i := n; i < n+130; i++ {
			if b.Get(i) {
				ctx.Fail("%s: bit %d is set, which there is not", what, i)
				return
			}
		}
		p := b.PickRandom()
		if any != (p >= 0) || p >= 0 && (p >= n || !f(p)) {
			ctx.Fail("%s: picks %d", what, p)
		}
		if err := b.Verify(); err != nil {
			ctx.Fail("%s: %v", what, err)
		}
	}
	for n := 0; n <= 200; n++ {
		for k, f := range fill {
			f := f
			what := fmt.Sprintf("%d bits, filling %d", n, k)
			ctx.Case("%s", what)
			guarded(ctx, what, func() {
				a := make1(n, f)
				is(what, a, n, f)
				c := a.Copy()
				is(what+", copied", c, n, f)
				if !a.Equal(c) || !c.Equal(a) {
					ctx.Fail("%s: is not equal to its copy", what)
				}
				c.Flip()
				is(what+", flipped", c, n, func(i int) bool { return !f(i) })
				is(what+", after its copy was flipped", a, n, f)
				if n > 0 && a.Equal(c) {
					ctx.Fail("%s: is equal to its opposite", what)
				}
				c.Flip()
				is(what+", flipped twice", c, n, f)
				if !a.Equal(c) {
					ctx.Fail("%s: is not equal to itself when flipped twice", what)
				}
				for i := 0; i < n; i++ {
					d := a.Copy()
					d.Set(i)
					is(what+", one set", d, n, func(j int) bool { return f(j) || i == j })
					d.Unset(i)
					is(what+", one unset", d, n, func(j int) bool { return f(j) && i != j })
					if a.Equal(d) == f(i) {
						ctx.Fail("%s: unset %d, equal is %v", what, i, a.Equal(d))
					}
				}
				for _, m := range []int{0, 1, 4, 63, 64, 65, 127, 128, 129, 200} {
					for _, g := range fill {
						g := g
						w := fmt.Sprintf("%s and %d bits", what, m)
						guarded(ctx, w, func() {
							c := a.Copy()
							c.AssignAnd(make1(m, g))
							k := n
							if m < k {
								k = m
							}
							is(w, c, k, func(i int) bool { return f(i) && g(i) })
						})
					}
				}
			})
		}
		ctx.NewState(fmt.Sprint(n))
	}
	// what others send
	for _, n := range []int{-1 << 63, -200, -64, -63, -1, 0, 1, 63, 64, 65, 128, 1 << 40, 1<<63 - 1} {
		for _, w := range [][]uint64{nil, {}, {0}, {1<<64 - 1}, {0, 0}, {1, 2, 3}} {
			b := &consensus.BitArray{NumBits: n, Words: w}
			ctx.Case("%d bits of others in %d words", n, len(w))
			ctx.Trans(1)
			if ok := n >= 0 && n <= len(w)*64; ok != (b.Verify() == nil) {
				ctx.Fail("%d bits in %d words: %v", n, len(w), b.Verify())
			}
		}
	}
}
