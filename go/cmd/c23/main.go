// C23: the validators of the HAVAH platform against a reference model.
package main

import (
	"fmt"
	"strings"

	"vgo/hv"
	"vgo/mc"
)

type (
	Op   = hv.Op
	Econ = hv.Econ
)

var I = hv.I

func vreg(owner string, node int, grade string) Op {
	return Op{K: "vreg", From: hv.Gov, To: owner, Node: node, Str: []string{grade, fmt.Sprintf("n%d", node)}}
}
func vunreg(owner string) Op              { return Op{K: "vunreg", From: owner, To: owner} }
func venable(owner string) Op             { return Op{K: "venable", From: owner, To: owner} }
func vkey(owner string, node int) Op      { return Op{K: "vkey", From: owner, Node: node} }
func vinfo(owner string, kv ...string) Op { return Op{K: "vinfo", From: owner, Str: kv} }
func vcount(n int64) Op                   { return Op{K: "vcount", From: hv.Gov, N: n} }
func vparams(p, a int64) Op               { return Op{K: "vparams", From: hv.Gov, N: p, D: a} }
func setrev(n int64) Op                   { return Op{K: "setrev", From: hv.Gov, N: n} }
func btpopen() Op                         { return Op{K: "btpopen", From: hv.Gov} }
func grant(n int) Op                      { return Op{K: "grant", From: hv.Gov, To: hv.Node(n)} }
func revoke(n int) Op                     { return Op{K: "revoke", From: hv.Gov, To: hv.Node(n)} }
func by(from string, o Op) Op             { o.From = from; return o }
func no(ids ...int64) Op                  { return Op{K: "vote", IDs: ids} }
func one(ops ...Op) (l [][]Op) {
	l = append(l, nil)
	for _, o := range ops {
		l = append(l, []Op{o})
	}
	return
}

// base has a main validator of own1 with node 0 and sub validators of own2, alice and bob with nodes 1 to 3.
func base(rev int64) hv.Config {
	return hv.Config{Rev: rev, Start: 3, Period: 4, Cycle: 100, Limit: 100, Issue: I(1000), Budget: I(0), Price: I(5), Wallet: I(1000), Vals: []int{0, 1},
		Setup: []Op{vreg(hv.Own1, 0, "main"), vreg(hv.Own2, 1, "sub"), vreg(hv.Alice, 2, "sub"), vreg(hv.Bob, 3, "sub"), vcount(2), vparams(1, 0)}}
}

type family struct {
	cfg   hv.Config
	depth int
	alpha func(m *Econ) [][]Op
}

func fixed(l [][]Op) func(m *Econ) [][]Op { return func(*Econ) [][]Op { return l } }

func families(deep int) (names []string, m map[string]func() family) {
	m = map[string]func() family{}
	add := func(name string, f func() family) {
		names = append(names, name)
		m[name] = f
	}
	l1 := func(o ...Op) [][]Op { return [][]Op{o} }
	for _, rev := range []int64{4, 7} {
		// votes with a main validator among the sub validators
		add(fmt.Sprintf("votes rev%d", rev), func() family {
			return family{base(rev), 8 + deep, fixed(append(one(no(1), no(0), venable(hv.Own2), venable(hv.Alice)), l1(no(1), venable(hv.Alice))...))}
		})
		// who joins, leaves and comes back over the terms
		add(fmt.Sprintf("members rev%d", rev), func() family {
			c := base(rev)
			c.Period = 2
			c.Setup = []Op{vreg(hv.Own1, 0, "main"), vreg(hv.Own2, 1, "sub"), vcount(2), vparams(0, 0)}
			return family{c, 4 + deep, fixed(append(one(vreg(hv.Alice, 2, "sub"), vreg(hv.Bob, 3, "main"), vreg(hv.Mgr, 1, "sub"), vunreg(hv.Own2), vunreg(hv.Own1), vcount(1), vcount(3),
				vkey(hv.Own1, 4), vkey(hv.Own2, 5)), l1(vunreg(hv.Alice), vreg(hv.Alice, 6, "main"))...))}
		})
		// keys of nodes, new and used
		add(fmt.Sprintf("keys rev%d", rev), func() family {
			c := base(rev)
			c.Period = 3
			c.Setup = append(c.Setup[:3:3], vcount(2), vparams(2, 0))
			return family{c, 4 + deep, fixed(append(one(vkey(hv.Own1, 4), vkey(hv.Own1, 0), vkey(hv.Own1, 1), vkey(hv.Own2, 4), vkey(hv.Own2, 0), vkey(hv.Alice, 5), vkey(hv.Alice, 1), vkey(hv.Bob, 6),
				vunreg(hv.Own2), vreg(hv.Bob, 1, "sub"), no(1)), l1(vkey(hv.Own2, 6), vkey(hv.Own2, 1))...))}
		})
	}
	// several validators which do not vote at once
	for _, n := range []int{2, 3} {
		for _, allow := range []int64{0, 1} {
			for _, period := range []int64{1, 2} {
				add(fmt.Sprintf("absent of %d allow%d every%d", n, allow, period), func() family {
					c := base(7)
					c.Vals = []int{1, 2, 3}[:n]
					c.Period = 4
					c.Setup = []Op{vreg(hv.Own2, 1, "sub"), vreg(hv.Alice, 2, "sub"), vreg(hv.Bob, 3, "sub"), vreg(hv.Mgr, 4, "sub"), vreg(hv.Own1, 5, "sub"), vcount(int64(n)), vparams(period, allow)}
					l := one(no(0), no(1), no(0, 1))
					if n == 3 {
						l = append(l, l1(no(2))...)
						l = append(l, l1(no(0, 2))...)
						l = append(l, l1(no(0, 1, 2))...)
					}
					l = append(l, l1(venable(hv.Own2), venable(hv.Alice))...)
					return family{c, 10 - n - int(2-period)*2 + 1 + deep, fixed(l)}
				})
			}
		}
	}
	// voters which are not validators any more, or never were
	add("voters", func() family {
		c := base(7)
		c.Period = 5
		return family{c, 5 + deep, func(m *Econ) [][]Op {
			l := one(no(0), no(1), vkey(hv.Own2, 5), vunreg(hv.Own2), venable(hv.Own2))
			for _, o := range []Op{no(0, 1), no(1)} {
				o.Str = []string{hv.Node(1), hv.Node(2)}
				l = append(l, l1(o)...)
				o.Str = []string{hv.Node(6), hv.Node(3), hv.Node(0)}
				l = append(l, l1(o)...)
				o.Str = []string{hv.Node(5), hv.Node(1)}
				l = append(l, l1(o)...)
			}
			return l
		}}
	})
	// how often an owner can come back
	add("comeback", func() family {
		c := base(7)
		c.Period = 50
		c.Setup = append(c.Setup[:2:2], vcount(1), vparams(1, 0))
		c.Vals = []int{1}
		c.Setup[0] = vreg(hv.Alice, 2, "sub")
		return family{c, 11 + deep, func(m *Econ) [][]Op {
			if m.H < 3 {
				return one()
			}
			o := no(0)
			o.Str = []string{hv.Node(1)}
			return append(l1(o), l1(o, venable(hv.Own2))...)
		}}
	})
	add("comeback gov", func() family {
		c := base(7)
		c.Period = 50
		c.Setup = append(c.Setup[:2:2], vcount(1), vparams(1, 0))
		return family{c, 9 + deep, func(m *Econ) [][]Op {
			if m.H < 3 {
				return one()
			}
			o := no(0)
			o.Str = []string{hv.Node(1)}
			return append(l1(o), l1(o, venable(hv.Own2))[0], l1(o, by(hv.Gov, venable(hv.Own2)))[0])
		}}
	})
	// the turn among many sub validators
	for _, n := range []int64{1, 2, 3} {
		add(fmt.Sprintf("turns of %d", n), func() family {
			c := base(7)
			c.Period = 2
			c.Setup = []Op{vreg(hv.Own2, 1, "sub"), vreg(hv.Alice, 2, "sub"), vreg(hv.Bob, 3, "sub"), vreg(hv.Mgr, 4, "sub"), vcount(n), vparams(1, 0)}
			return family{c, 7 + deep, fixed(append(one(no(0), vunreg(hv.Alice), vunreg(hv.Mgr)), l1(vreg(hv.Own1, 5, "sub"))...))}
		})
	}
	// the list gets shorter than where the turn is
	add("turns after leaving", func() family {
		c := base(7)
		c.Period, c.Vals = 3, []int{0}
		c.Setup = []Op{vreg(hv.Own1, 1, "sub"), vreg(hv.Own2, 2, "sub"), vreg(hv.Alice, 3, "sub"), vreg(hv.Bob, 4, "sub"), vreg(hv.Mgr, 5, "sub"), vcount(4), vparams(0, 0)}
		return family{c, 7 + deep, func(m *Econ) [][]Op {
			if m.H < 3 {
				return one()
			}
			return one(vcount(1), vunreg(hv.Own1), vunreg(hv.Own2), vunreg(hv.Alice), vunreg(hv.Bob))
		}}
	})
	// parameters which take effect at the next term
	add("parameters", func() family {
		c := base(7)
		c.Period = 3
		return family{c, 5 + deep, fixed(append(one(vparams(2, 1), vparams(1, 1), vparams(0, 0), vcount(1), vcount(4), no(1)), l1(no(1), vparams(1, 0))...))}
	})
	// before the decentralization and when it comes
	for _, rev := range []int64{3, 4, 7} {
		add(fmt.Sprintf("start rev%d", rev), func() family {
			c := base(rev)
			c.Start, c.Period, c.Setup = 0, 2, []Op{vreg(hv.Own1, 0, "main")}
			c.Vals = []int{0, 1}
			if rev == 3 {
				c.Setup = nil
			}
			return family{c, 5 + deep, func(m *Econ) [][]Op {
				l := one(vreg(hv.Own1, 0, "sub"), vreg(hv.Own2, 1, "sub"), vcount(1), vcount(2), vcount(3), setrev(4), vparams(1, 0), vunreg(hv.Own1))
				return append(l, l1(Op{K: "start", From: hv.Gov, A: I(m.H + 2)})...)
			}}
		})
	}
	// the end of the issuance
	for _, limit := range []int64{1, 2} {
		add(fmt.Sprintf("limit %d", limit), func() family {
			c := base(7)
			c.Period, c.Limit = 2, limit
			return family{c, 8 + deep, fixed(one(no(1), vparams(0, 0), vcount(1), venable(hv.Own2)))}
		})
	}
	// revisions and BTP keys
	for _, rev := range []int64{4, 5, 6, 7} {
		add(fmt.Sprintf("btp rev%d", rev), func() family {
			c := base(rev)
			c.Period = 2
			c.Setup = append(c.Setup[:3:3], vcount(2), vparams(1, 0))
			return family{c, 4 + deep, fixed(append(one(setrev(rev+1), setrev(7), btpopen(), vreg(hv.Bob, 3, "sub"), vkey(hv.Own2, 4), vkey(hv.Own1, 0), vkey(hv.Alice, 2), no(1), vcount(3)),
				l1(setrev(5), btpopen(), vreg(hv.Bob, 3, "sub"))...))}
		})
		add(fmt.Sprintf("btp late rev%d", rev), func() family {
			c := base(5)
			if rev == 4 {
				c.Rev = 4
			}
			c.Period, c.Start = 2, 4
			c.Setup = []Op{vreg(hv.Own1, 0, "main"), vreg(hv.Own2, 1, "sub"), setrev(5), vkey(hv.Own1, 0), vkey(hv.Own2, 1), btpopen(), vreg(hv.Alice, 2, "sub"), vreg(hv.Bob, 3, "main"), vcount(3), vparams(1, 0), setrev(max(rev, 5))}
			return family{c, 4 + deep, fixed(one(vkey(hv.Alice, 2), vkey(hv.Bob, 3), vkey(hv.Alice, 5), no(1), no(2), vcount(4), setrev(7), vunreg(hv.Own2)))}
		})
	}
	// validators without an owner
	for _, rev := range []int64{4, 7} {
		add(fmt.Sprintf("strangers rev%d", rev), func() family {
			c := base(rev)
			c.Period = 2
			c.Vals, c.Grants = []int{7, 0}, true
			c.Setup = append(c.Setup[:3:3], vcount(2), vparams(1, 0))
			return family{c, 5 + deep, fixed(append(one(grant(6), grant(1), revoke(7), revoke(0), revoke(1), vreg(hv.Bob, 7, "main"), vkey(hv.Own1, 6), vunreg(hv.Own1), no(1)), l1(revoke(0), revoke(7))...))}
		})
	}
	// who may do what
	for _, rev := range []int64{3, 4, 7} {
		for _, start := range []int64{3, 8} {
			add(fmt.Sprintf("access rev%d start%d", rev, start), func() family {
				c := base(rev)
				c.Start, c.Grants = start, true
				c.Period = 3
				return family{c, 2, func(m *Econ) (l [][]Op) {
					l = append(l, nil)
					for _, who := range []string{hv.Gov, hv.Own2, hv.Alice, hv.Mgr, hv.Proxy} {
						for _, o := range []Op{vunreg(hv.Own2), vunreg(hv.Mgr), venable(hv.Own2), vkey(who, 5), vcount(1), vparams(2, 2), setrev(7), btpopen(), grant(5), revoke(1)} {
							if who == hv.Proxy && (o.From == hv.Gov && o.To == "") {
								continue
							}
							l = append(l, l1(by(who, o))...)
						}
						if who != hv.Proxy {
							l = append(l, l1(by(who, vreg(hv.Mgr, 5, "sub")))[0], l1(vinfo(who, "name", "x"))[0], l1(vinfo(who))[0])
						}
					}
					return l
				}}
			})
		}
	}
	// arguments
	add("arguments", func() family {
		c := base(7)
		long := strings.Repeat("n", 201)
		return family{c, 2, func(m *Econ) (l [][]Op) {
			l = append(l, nil)
			for _, n := range []int{0, 1, 99, 100, 101} {
				o := vreg(hv.Mgr, 5, "main")
				o.Str[1] = long[:n]
				l = append(l, l1(o)[0], l1(vinfo(hv.Alice, "name", long[:n]))[0])
			}
			for _, n := range []int{0, 1, 199, 200, 201} {
				o := vreg(hv.Mgr, 5, "sub")
				o.Str = append(o.Str, long[:n])
				l = append(l, l1(o)[0], l1(vinfo(hv.Alice, "url", long[:n]))[0], l1(vinfo(hv.Own1, "url", long[:n], "name", "me"))[0])
			}
			for _, g := range []string{"", "Main", "SUB", "all", "none", "disqualified", "main ", "main", "sub"} {
				l = append(l, l1(vreg(hv.Mgr, 5, g))[0])
			}
			for _, n := range []int{-1, 0, 3, 5} {
				l = append(l, l1(vreg(hv.Mgr, n, "sub"))[0], l1(vkey(hv.Alice, n))[0])
			}
			l = append(l, l1(vreg(hv.Own1, 5, "sub"))[0], l1(vinfo(hv.Own1, "name", "a", "name", "b"))[0], l1(vinfo(hv.Own1, "grade", "main"))[0], l1(vinfo(hv.Own1, "name", "a", "nodePublicKey", "x"))[0],
				l1(vinfo(hv.Own1, "url", "u", "name", long))[0], l1(vinfo(hv.Mgr, "name", "a"))[0], l1(by(hv.Gov, vunreg(hv.Proxy)))[0], l1(by(hv.Gov, venable(hv.Proxy)))[0],
				l1(vunreg(hv.Mgr))[0], l1(venable(hv.Mgr))[0])
			for _, n := range []int64{-1, 0, 1, 3, 4, 5, 999, 1000, 1001} {
				l = append(l, l1(vcount(n))[0], l1(vparams(n, 1))[0], l1(vparams(1, n))[0])
			}
			for _, n := range []int64{-1, 0, 6, 7, 8} {
				l = append(l, l1(setrev(n))[0])
			}
			l = append(l, l1(by(hv.Gov, Op{K: "grant", To: hv.Proxy}))[0], l1(by(hv.Gov, Op{K: "revoke", To: hv.Proxy}))[0], l1(grant(0))[0], l1(revoke(5))[0])
			return l
		}}
	})
	return
}

func main() {
	mc.Main(mc.Check{
		Units: func(tier string) []string {
			n, _ := families(0)
			return n
		},
		Run: func(unit string, ctx *mc.Ctx) {
			deep := 0
			if ctx.Thorough() {
				deep = 1
			}
			_, m := families(deep)
			f := m[unit]()
			w := hv.Open(ctx, f.cfg)
			defer w.C.Close()
			only := 0
			if strings.HasPrefix(unit, "access") || unit == "arguments" {
				only = 3
				if ctx.Thorough() {
					only = 8
				}
			}
			hv.Explore(ctx, w, unit, f.depth, only, f.alpha)
		},
	})
}
