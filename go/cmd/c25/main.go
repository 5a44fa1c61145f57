// C25: a transaction is executed at most once.
package main

import (
	"fmt"

	"github.com/icon-project/goloop/module"
	"vgo/mc"
	. "vgo/node"
)

type step struct {
	gap     int64
	l       []T // times are relative to the block
	restart bool
	held    bool
}

func (s step) String() string {
	r := fmt.Sprintf("+%d", s.gap)
	for _, t := range s.l {
		r += fmt.Sprintf(" %+d", t.At)
	}
	if s.held {
		r += " held"
	}
	if s.restart {
		r += " restart"
	}
	return r
}

// abs gives the transactions of a block at this time.
func abs(at int64, l []T) (r []T) {
	for _, t := range l {
		r = append(r, T{at + t.At, t.N})
	}
	return
}

var offs = []int64{-1, 0, 1, 2}

const th = 2

// histories runs all sequences of blocks whose total number of transactions and restarts is bounded.
func histories(c *mc.Ctx, first int64, depth, most, restarts int, gaps, probe []int64, held bool) {
	var walk func(pre []step, ntx, nre int)
	walk = func(pre []step, ntx, nre int) {
		if len(pre) == depth {
			if ntx == 0 {
				return
			}
			c.Case("%v", pre)
			h := NewHist(c, th, false)
			defer h.Close()
			for _, s := range pre {
				at := h.Now + s.gap
				l := abs(at, s.l)
				h.Gate.Shut(false)
				if s.held {
					h.Quiet(h.Olds()...)
					h.Gate.Shut(true)
				}
				if !h.Add(at, l...) {
					return
				}
				c.State(h.Now, h.Olds(), s.restart, s.held)
				if s.restart {
					// with the writes which are held back lost, if any
					if !h.Restart(h.DB.Copy()) {
						return
					}
				}
			}
			h.Find()
			h.Probe(probe)
			return
		}
		for _, g := range gaps {
			if len(pre) == 0 && g != first {
				continue
			}
			for k := -1; k < len(offs); k++ {
				if ntx == 1 && k > 0 && k < 3 {
					continue
				}
				s := step{gap: g, held: held}
				n := ntx
				if k >= 0 {
					if n == most {
						break
					}
					n++
					s.l = []T{{offs[k], n}}
				}
				for _, re := range []bool{false, true} {
					if re && (nre == restarts || n == 0) {
						break
					}
					s.restart = re
					r := nre
					if re {
						r++
					}
					walk(append(append([]step(nil), pre...), s), n, r)
				}
			}
		}
	}
	walk(nil, 0, 0)
}

// parents offers blocks on blocks which are not finalized yet.
func parents(c *mc.Ctx, gaps []int64) {
	for _, g1 := range gaps {
		for _, g2 := range gaps {
			for _, o := range offs {
				for _, re := range []int{0, 1, 2} {
					c.Case("parent +%d %+d, then +%d, restart %d", g1, o, g2, re)
					h := NewHist(c, th, false)
					if re == 1 && !h.Restart(nil) {
						h.Close()
						continue
					}
					a, b := h.Now+g1, h.Now+g1+g2
					x, y := T{a + o, 1}, T{a + th, 2}
					if g2 < th {
						y = T{b + o, 2}
					}
					bc := h.Ask(h.N.Last(), a, nil, x)
					other := h.Ask(h.N.Last(), a+1, nil, T{a + 1, 3})
					if bc == nil || other == nil {
						h.Close()
						continue
					}
					for _, l := range [][]T{{x}, {y}, {x, y}, {y, x}, {T{a + 1, 3}}, {y, y}} {
						if d := h.Ask(bc, b, []T{x}, l...); d != nil {
							d.Dispose()
						}
					}
					for _, l := range [][]T{{x}, {T{a + 1, 3}}} {
						if d := h.Ask(other, b+1, []T{{a + 1, 3}}, l...); d != nil {
							d.Dispose()
						}
					}
					var kid module.BlockCandidate
					if h.Valid(b, []T{x}, y) {
						kid = h.Ask(bc, b, []T{x}, y)
					}
					h.Final(bc, a, x)
					if kid != nil {
						h.Final(kid, b, y)
					}
					if re == 2 && !h.Restart(nil) {
						h.Close()
						continue
					}
					h.Find(T{a + 1, 3})
					h.Probe([]int64{1, 2, 4})
					c.State(h.Now, h.Olds())
					h.Close()
				}
			}
		}
	}
}

// lists offers all lists of transactions up to a length, on a block with one of them.
func lists(c *mc.Ctx, n int) {
	h := NewHist(c, th, false)
	defer h.Close()
	if !h.Add(1, T{2, 1}) {
		return
	}
	all := []T{{2, 1}, {2, 2}, {3, 3}, {1, 4}, {5, 5}, {0, 6}, {4, 7}}
	var walk func(l []T)
	walk = func(l []T) {
		c.Case("%v", l)
		if bc := h.Ask(h.N.Last(), 2, nil, l...); bc != nil {
			bc.Dispose()
			c.State(l)
		}
		if len(l) < n {
			for _, t := range all {
				walk(append(append([]T(nil), l...), t))
			}
		}
	}
	walk(nil)
	h.Add(2, T{2, 2}, T{3, 3}, T{4, 7})
	h.Find(all...)
	h.Add(3, T{5, 5})
	h.Restart(nil)
	h.Find(all...)
	h.Add(4)
	h.Add(9)
	h.Find(all...)
}

// thresholds runs all sequences of blocks, restarts and changes of the width of the window.
func thresholds(c *mc.Ctx, width int64, first, second string, depth int) {
	acts := []string{"+1", "+4", "+8", "w2", "w4", "w8", "restart"}
	var walk func(pre []string)
	walk = func(pre []string) {
		if len(pre) >= 2 {
			c.Case("window %d %v", width, pre)
			h := NewHist(c, width, true)
			ok := true
			for i, a := range pre {
				at := h.Now + 1
				if a[0] == '+' {
					at = h.Now + int64(a[1]-'0')
				}
				switch {
				case a == "restart":
					ok = ok && h.Restart(nil)
				case a[0] == 'w':
					h.SetTh(at, int64(a[1]-'0'))
				case ok:
					ok = h.Add(at, T{at + h.Th, i})
				}
			}
			c.State(h.Now, h.Th, h.Olds())
			if ok {
				h.Find()
				h.Probe([]int64{1, 4, 7})
				h.Kids([]int64{1, 3})
			}
			h.Close()
		}
		if len(pre) == depth {
			return
		}
		for _, a := range acts {
			if len(pre) == 0 && a != first || len(pre) == 1 && a != second {
				continue
			}
			n, w := 0, 0
			for _, b := range pre {
				if b == "restart" {
					n++
				} else if b[0] == 'w' {
					w++
				}
			}
			if a == "restart" && n > 0 || a[0] == 'w' && (w > 1 || len(pre) > 0 && pre[len(pre)-1][0] == 'w') {
				continue
			}
			walk(append(append([]string(nil), pre...), a))
		}
	}
	walk(nil)
}

// crashes ends the node at each write of the end of a block.
func crashes(c *mc.Ctx, g1, g2 int64) {
	for _, o1 := range offs {
		for _, o2 := range offs {
			for n := 0; n < 3; n++ {
				h := NewHist(c, th, false)
				a, b := h.Now+g1, h.Now+g1+g2
				c.Case("+%d %+d, +%d %+d (%d)", g1, o1, g2, o2, n)
				if !h.Add(a, T{a + o1, 1}) {
					h.Close()
					continue
				}
				h.Quiet(T{a + o1, 1})
				l := []T{{b + o2, 2}, {b + 1, 3}, {b + 2, 4}}[:n]
				bs, err := h.Bytes(h.N.Last(), b, h.List(l)...)
				mc.Must(err)
				bc := h.Ask(h.N.Last(), b, nil, l...)
				if bc == nil {
					h.Close()
					continue
				}
				old, gen := h.Olds(), h.H
				ds := h.Crashes(bc.ID(), func() { h.Final(bc, b, l...) }, l...)
				last, done := h.H, h.Done
				for i, d := range ds {
					c.Case("+%d %+d, +%d %+d (%d), crash %d of %d", g1, o1, g2, o2, n, i, len(ds))
					c.Trans(1)
					if !h.Restart(d) {
						break
					}
					at := h.N.Last().Height()
					if at != last {
						c.Expect(at, gen, "last block after the crash")
						h.Done = map[T]Loc{}
						for _, t := range old {
							h.Done[t] = done[t]
						}
						h.H = gen
						h.Find()
						// the others decided for the block, which comes back by force
						bc, err := h.N.Take(bs, module.ImportByForce)
						if err != nil {
							c.Fail("the decided block is refused: %v", err)
							continue
						}
						h.Final(bc, b, l...)
					}
					h.Now = b
					h.Find()
					h.Probe([]int64{1, 3})
					c.State(i, h.Olds())
				}
				h.Close()
			}
		}
	}
}

func main() {
	var names []string
	runs := map[string]func(c *mc.Ctx){}
	add := func(name string, f func(c *mc.Ctx)) { names, runs[name] = append(names, name), f }
	mc.Main(mc.Check{
		Units: func(tier string) []string {
			deep := tier == "thorough"
			gaps := []int64{1, 2, 4, 5}
			probe := []int64{1, 2, 3, 4}
			for _, g := range gaps {
				g := g
				add(fmt.Sprintf("histories from +%d", g), func(c *mc.Ctx) {
					if deep {
						histories(c, g, 4, 2, 1, gaps, probe, false)
					} else {
						histories(c, g, 3, 2, 1, gaps, probe, false)
					}
				})
				add(fmt.Sprintf("late locators from +%d", g), func(c *mc.Ctx) { histories(c, g, 2, 2, 2, gaps, probe, true) })
				for _, g2 := range gaps {
					g2 := g2
					add(fmt.Sprintf("crashes +%d +%d", g, g2), func(c *mc.Ctx) { crashes(c, g, g2) })
				}
			}
			add("on parents", func(c *mc.Ctx) { parents(c, []int64{1, 2, 3, 4}) })
			add("lists", func(c *mc.Ctx) {
				if deep {
					lists(c, 5)
				} else {
					lists(c, 4)
				}
			})
			for op := 0; op < 8; op++ {
				op := op
				add(fmt.Sprintf("pool from %d", op), func(c *mc.Ctx) {
					if deep {
						pools(c, op, 5)
					} else {
						pools(c, op, 4)
					}
				})
			}
			for _, w := range []int64{4, 8} {
				for _, f := range []string{"+1", "+4", "w2"} {
					for _, g := range []string{"+1", "+4", "+8", "w2", "w8", "restart"} {
						if f[0] == 'w' && g[0] == 'w' {
							continue
						}
						w, f, g := w, f, g
						add(fmt.Sprintf("windows %d %s %s", w, f, g), func(c *mc.Ctx) {
							if deep {
								thresholds(c, w, f, g, 6)
							} else {
								thresholds(c, w, f, g, 5)
							}
						})
					}
				}
			}
			return names
		},
		Run: func(u string, c *mc.Ctx) { runs[u](c) },
	})
}
