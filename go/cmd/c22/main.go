// C22: the issuance and the rewards of the HAVAH platform against a reference model.
package main

import (
	"fmt"
	"strings"

	"vgo/hv"
	"vgo/mc"
)

type (
	Op   = hv.Op
	Z    = hv.Z
	Econ = hv.Econ
)

var I = hv.I

func report(ids ...int64) (l []Op) {
	for _, id := range ids {
		l = append(l, Op{K: "report", From: hv.Mgr, IDs: []int64{id}})
	}
	return
}
func claim(from string, ids ...int64) Op { return Op{K: "claim", From: from, IDs: ids} }
func xfer(from, to string, v int64) Op   { return Op{K: "xfer", From: from, To: to, A: I(v)} }
func reg(id int64, owner string, flags int, usdt, price int64) Op {
	return Op{K: "reg", From: hv.NFT, IDs: []int64{id}, To: owner, Priv: flags&1 != 0, Comp: flags&2 != 0, USDT: I(usdt), Price: I(price)}
}
func unreg(id int64) Op { return Op{K: "unreg", From: hv.NFT, IDs: []int64{id}} }
func setowner(id int64, to string) Op {
	return Op{K: "setowner", From: hv.NFT, IDs: []int64{id}, To: to}
}
func rate(n, d int64) Op      { return Op{K: "rate", From: hv.Gov, N: n, D: d} }
func usdt(v int64) Op         { return Op{K: "usdt", From: hv.Gov, A: I(v)} }
func gov(k, to string) Op     { return Op{K: k, From: hv.Gov, To: to} }
func by(from string, o Op) Op { o.From = from; return o }
func one(ops ...Op) (l [][]Op) {
	l = append(l, nil)
	for _, o := range ops {
		l = append(l, []Op{o})
	}
	return
}

func base(rev int64) hv.Config {
	return hv.Config{Rev: rev, Start: 3, Period: 2, Cycle: 2, Limit: 3, Issue: I(1000), Budget: I(700), Price: I(5), Hoover: I(100), Sust: I(0), Wallet: I(1000),
		Mgrs: []string{hv.Mgr}, Planets: []Op{
			reg(1, hv.Own1, 0, 72_000_000_000, 2000), reg(2, hv.Own1, 1, 7_200_000_000, 2000), reg(3, hv.Own2, 2, 7_200_000_000, 2000)}}
}

type family struct {
	cfg   hv.Config
	depth int
	alpha func(m *Econ) [][]Op
}

func fixed(l [][]Op) func(m *Econ) [][]Op { return func(*Econ) [][]Op { return l } }

func families(deep int) (names []string, m map[string]func() family) {
	m = map[string]func() family{}
	add := func(name string, f func() family) {
		names = append(names, name)
		m[name] = f
	}
	for _, rev := range []int64{0, 2, 7} {
		// work reports and claims over the terms and after the last one
		add(fmt.Sprintf("rewards rev%d", rev), func() family {
			return family{base(rev), 6 + deep, fixed(one(append(report(1, 2, 3), claim(hv.Own1, 1, 2), claim(hv.Own2, 3), xfer(hv.Alice, hv.Service, 11))...))}
		})
		// registration, transfer and removal of planets
		add(fmt.Sprintf("registry rev%d", rev), func() family {
			c := base(rev)
			c.Period = 2
			c.Planets = c.Planets[:2]
			return family{c, 7 + deep, fixed(one(append(report(1, 2), claim(hv.Own1, 1, 2), claim(hv.Own2, 1), unreg(1), reg(1, hv.Own2, 1, 7_200_000_000, 900), setowner(1, hv.Own2),
				gov("withdraw", hv.Alice))...))}
		})
	}
	// lost coins of several planets
	for _, rev := range []int64{1, 7} {
		add(fmt.Sprintf("lost rev%d", rev), func() family {
			c := base(rev)
			c.Start = 2
			l := [][]Op{nil, report(1, 2, 3)}
			for _, o := range []Op{unreg(1), unreg(2), unreg(3), claim(hv.Own1, 1), gov("withdraw", hv.Alice), gov("withdraw", hv.Public), reg(1, hv.Own2, 0, 0, 0)} {
				l = append(l, []Op{o})
			}
			return family{c, 6 + deep, fixed(l)}
		})
	}
	// the longest histories of one planet
	add("one planet", func() family {
		c := base(7)
		c.Planets = []Op{reg(1, hv.Own1, 3, 7_200_000_000_000, 5000)}
		c.Limit = 5
		c.Budget = I(900)
		return family{c, 9 + deep, fixed(one(append(report(1), claim(hv.Own1, 1), rate(1, 2), xfer(hv.Alice, hv.Sustainable, 123))...))}
	})
	// subsidies of the hoover fund, up to the price of a planet
	for i, h := range []int64{0, 40, 1000} {
		add(fmt.Sprintf("hoover %d", h), func() family {
			c := base(7)
			c.Hoover = I(h)
			c.Issue = I(100)
			c.Limit = 4
			c.Budget = I(300)
			c.Sust = I(h / 2)
			c.Planets = []Op{reg(1, hv.Own1, 0, 72_000_000_000, []int64{120, 300, 700}[i]), reg(3, hv.Own2, 2, 36_000_000_000, 10000)}
			return family{c, 6 + deep, fixed(one(append(report(1, 3), usdt(50), usdt(11), xfer(hv.Alice, hv.Hoover, 33), xfer(hv.Alice, hv.Sustainable, 90), claim(hv.Own1, 1))...))}
		})
	}
	// locked rewards of private planets
	add("private", func() family {
		c := base(7)
		c.Planets = []Op{reg(1, hv.Own1, 1, 0, 0), reg(2, hv.Own2, 3, 0, 0)}
		return family{c, 6 + deep, fixed(one(append(report(1, 2), claim(hv.Own1, 1), claim(hv.Own2, 2), rate(1, 24), rate(2, 3), rate(10000, 10000), rate(0, 1))...))}
	})
	// start of the issuance, reduction, limit, fees and burning
	for _, cyc := range []int64{1, 2, 3} {
		add(fmt.Sprintf("issue cycle%d", cyc), func() family {
			c := base(7)
			c.Start, c.Cycle, c.Period, c.Limit = 0, cyc, 1, 4
			c.Issue = I(17)
			c.Planets = c.Planets[:1]
			c.Service = I(7)
			return family{c, 6 + deep, func(m *Econ) [][]Op {
				l := one(Op{K: "start", From: hv.Gov, A: I(m.H + 2)}, Op{K: "burn", From: hv.Alice, A: I(7)}, xfer(hv.Alice, hv.Treasury, 9), report(1)[0])
				if m.Start == 0 || m.H < m.Start {
					for _, h := range []int64{0, -1, m.H, m.H + 1, m.H + 3} {
						l = append(l, []Op{{K: "start", From: hv.Gov, A: I(h)}})
					}
					l = append(l, []Op{{K: "start", From: hv.Alice, A: I(m.H + 2)}})
				}
				return l
			}}
		})
	}
	// terms of several lengths up to far beyond the limit
	for _, per := range []int64{1, 2, 3, 4} {
		add(fmt.Sprintf("terms of %d", per), func() family {
			c := base(7)
			c.Period, c.Cycle, c.Limit, c.Start = per, 2, 2, 4
			return family{c, int(4*per) + 3, fixed([][]Op{nil, report(1, 2, 3)})}
		})
	}
	// planet managers
	add("managers", func() family {
		c := base(7)
		c.Start = 2
		return family{c, 5 + deep, fixed(one(gov("addpm", hv.Alice), gov("addpm", hv.Bob), gov("addpm", hv.Proxy), gov("rmpm", hv.Alice), gov("rmpm", hv.Bob), gov("rmpm", hv.Mgr),
			by(hv.Mgr, gov("addpm", hv.Bob)), by(hv.Alice, gov("rmpm", hv.Mgr)), by(hv.Alice, report(1)[0]), by(hv.Bob, report(1)[0]), by(hv.Proxy, report(2)[0])))}
	})
	// several transactions in a block
	add("pairs", func() family {
		c := base(7)
		ops := append(report(1, 2, 3), claim(hv.Own1, 1, 1, 2), unreg(1), reg(1, hv.Own1, 2, 7_200_000_000, 900), setowner(1, hv.Own2), claim(hv.Own2, 3, 1), usdt(60), rate(1, 3),
			gov("withdraw", hv.Bob))
		var l [][]Op
		for _, a := range ops {
			for _, b := range ops {
				l = append(l, []Op{a, b})
			}
		}
		return family{c, 3, func(m *Econ) [][]Op {
			if m.H < m.Start-1 {
				return [][]Op{nil}
			}
			return l
		}}
	})
	// shares that do not divide: any number of planets, any number of them at work, every block a term
	for _, n := range []int{4, 7} {
		add(fmt.Sprintf("shares %d", n), func() family {
			c := base(7)
			c.Period, c.Cycle, c.Limit, c.Issue = 1, 2, 50, I(100)
			c.Planets = nil
			for i := 0; i < n; i++ {
				c.Planets = append(c.Planets, reg(int64(i), hv.Own1, i%4, int64(i)*1_000_000_000, 500))
			}
			var l [][]Op
			for k := 0; k <= n; k++ {
				var ids []int64
				for i := 0; i < k; i++ {
					ids = append(ids, int64((i*3)%n))
				}
				l = append(l, report(ids...))
			}
			return family{c, 4 + min(deep, 1), fixed(l)}
		})
	}
	// amounts as on the real chain
	add("large", func() family {
		c := base(7)
		c.Issue, c.Budget, c.Hoover, c.Price = hv.Coin(4_300_000), hv.Coin(50_000_000), hv.Coin(49_999_999), hv.Coin(3)
		c.Wallet = hv.Coin(1_000_000_000)
		c.Planets = nil
		for i := int64(1); i < 8; i++ {
			c.Planets = append(c.Planets, Op{K: "reg", From: hv.NFT, IDs: []int64{i << 40}, To: hv.Own1, Priv: i&1 != 0, Comp: i&2 != 0, USDT: I(5_000_000_000 * i * i * i * i), Price: hv.Coin(50_000 * i)})
		}
		return family{c, 5 + deep, fixed(one(append(report(1<<40, 2<<40, 3<<40, 7<<40), claim(hv.Own1, 1<<40, 2<<40, 3<<40), Op{K: "usdt", From: hv.Gov, A: hv.Coin(77)},
			Op{K: "burn", From: hv.Alice, A: hv.Coin(999_999_999)})...))}
	})
	// who may do what, at each revision, before the start, in a term and after the last one
	for _, rev := range []int64{0, 1, 2, 3, 4, 5, 6, 7} {
		add(fmt.Sprintf("access rev%d", rev), func() family {
			c := base(rev)
			c.Mgrs = []string{hv.Mgr, hv.Proxy}
			c.Limit = 1
			c.Cycle = 2
			c.Planets = append(c.Planets, reg(5, hv.Proxy, 0, 1, 1))
			return family{c, 6, func(m *Econ) [][]Op {
				l := one(append(report(1, 5), unreg(3))...)
				for _, u := range []string{hv.Gov, hv.God, hv.Mgr, hv.Own1, hv.Alice, hv.Proxy, hv.NFT} {
					for _, o := range []Op{report(2)[0], claim("", 1), claim("", 5), reg(9, hv.Own1, 0, 1, 1), unreg(2), setowner(1, hv.Bob), usdt(9), rate(1, 2),
						{K: "start", A: I(m.H + 9)}, gov("withdraw", hv.Bob), gov("withdraw", hv.Proxy), gov("addpm", hv.Bob), gov("rmpm", hv.Mgr), {K: "burn", A: I(5)}, {K: "burn", A: I(2000)}, {K: "burn", A: I(0)}} {
						l = append(l, []Op{by(u, o)})
					}
				}
				return l
			}}
		})
	}
	// arguments at and beyond their limits
	add("arguments", func() family {
		c := base(7)
		c.Planets = append(c.Planets, reg(0, hv.Own1, 0, 0, 0))
		return family{c, 6, func(m *Econ) [][]Op {
			l := one(report(1, 2)...)
			for _, n := range []int64{-1, 0, 1, 23, 24, 9999, 10000, 10001, 65536} {
				for _, d := range []int64{-1, 0, 1, 24, 9999, 10000, 10001, 65536} {
					l = append(l, []Op{rate(n, d)})
				}
			}
			for _, id := range []int64{-1, 0, 1, 77, -1 << 63, 1<<63 - 1} {
				l = append(l, report(id), []Op{reg(id, hv.Own1, 0, 0, 0)}, []Op{unreg(id)}, []Op{setowner(id, hv.Bob)}, []Op{claim(hv.Own1, id)}, []Op{claim(hv.Own1, id, 1, id, 1)})
			}
			for _, n := range []int{0, 49, 50, 51, 100} {
				var ids []int64
				for i := 0; i < n; i++ {
					ids = append(ids, int64(n-1-i))
				}
				l = append(l, []Op{{K: "claim", From: hv.Own1, IDs: append([]int64{}, ids...)}})
			}
			for _, v := range []int64{-1, 0, 1} {
				l = append(l, []Op{usdt(v)})
			}
			return l
		}}
	})
	return
}

func main() {
	mc.Main(mc.Check{
		Units: func(tier string) []string {
			n, _ := families(0)
			return n
		},
		Run: func(unit string, ctx *mc.Ctx) {
			deep := 0
			if ctx.Thorough() {
				deep = 1
			}
			_, m := families(deep)
			f := m[unit]()
			w := hv.Open(ctx, f.cfg)
			defer w.C.Close()
			only := 0
			if strings.HasPrefix(unit, "access") || unit == "arguments" {
				only = 3
				if ctx.Thorough() {
					only = 8
				}
			}
			hv.Explore(ctx, w, unit, f.depth, only, f.alpha)
		},
	})
}
