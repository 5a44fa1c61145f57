package main

import (
	"fmt"

	"vgo/mc"
	. "vgo/node"
)

// pools runs all sequences of transactions which are sent, blocks of this node, blocks of others with one transaction, and restarts.
func pools(c *mc.Ctx, first, depth int) {
	all := []T{{1, 1}, {3, 2}, {5, 3}}
	const own, other, again = 3, 5, 8
	var walk func(pre []int)
	run := func(pre []int) {
		h := NewHist(c, th, false)
		defer h.Close()
		var pool []T
		has := func(t T) bool {
			for _, o := range pool {
				if o == t {
					return true
				}
			}
			return false
		}
		// end is what a block does to the pool.
		end := func() {
			var l []T
			for _, t := range pool {
				if _, ok := h.Done[t]; !ok && t.At > h.Now-th {
					l = append(l, t)
				}
			}
			pool = l
		}
		for _, op := range pre {
			c.Trans(1)
			switch {
			case op < own:
				t := all[op]
				_, old := h.Done[t]
				want := !old && !has(t) && t.At > h.Now-th
				_, err := h.N.SM.SendTransaction(nil, 0, h.Of(t))
				c.Expect(err == nil, want, "transaction %v is taken (block at %d, executed %v, waiting %v): %v", t, h.Now, h.Olds(), pool, err)
				if err == nil && !has(t) {
					pool = append(pool, t)
				}
			case op < other:
				at := h.Now + 1 + int64(op-own)*2
				bc, err := h.N.Propose(h.N.Last().ID(), Votes(h.N.Last(), 0, Us(at), 0))
				if err != nil {
					c.Fail("no block can be proposed: %v", err)
					return
				}
				var l []T
				for _, t := range pool {
					if t.At > at-th && t.At <= at+th {
						l = append(l, t)
					}
				}
				var got, want []string
				for i := bc.NormalTransactions().Iterator(); i.Has(); i.Next() {
					tx, _, err := i.Get()
					mc.Must(err)
					got = append(got, fmt.Sprintf("%x", tx.ID()))
				}
				for _, t := range l {
					want = append(want, fmt.Sprintf("%x", h.Of(t).ID()))
				}
				c.Expect(got, want, "transactions of the proposed block at %d (executed %v, waiting %v)", at, h.Olds(), pool)
				bs := Bytes(bc)
				if o, err := h.N.Take(bs, 0); err != nil {
					c.Fail("the proposed block is refused: %v", err)
				} else {
					o.Dispose()
				}
				h.Final(bc, at, l...)
				end()
			case op < again:
				t := all[op-other]
				at := h.Now + 1
				bc := h.Ask(h.N.Last(), at, nil, t)
				if bc == nil {
					continue
				}
				h.Final(bc, at, t)
				end()
			default:
				if !h.Restart(nil) {
					return
				}
				pool = nil
			}
			for _, t := range all {
				c.Expect(h.N.SM.HasTransaction(h.Of(t).ID()), has(t), "transaction %v is waiting", t)
			}
			c.State(h.Now, h.Olds(), pool)
		}
		h.Find(all...)
	}
	walk = func(pre []int) {
		if len(pre) == depth {
			c.Case("%v", pre)
			run(pre)
			return
		}
		for op := 0; op <= again; op++ {
			if len(pre) == 0 && op != first || len(pre) > 0 && op == again && pre[len(pre)-1] == again {
				continue
			}
			walk(append(append([]int(nil), pre...), op))
		}
	}
	walk(nil)
}
