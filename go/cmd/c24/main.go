// C24: transactions and the calls in them take effect as a whole or not at all.
package main

import (
	"fmt"

	"vgo/mc"
	"vgo/tx"
)

type (
	In   = tx.In
	Prog = tx.Prog
	Tx   = tx.Tx
)

func set(k, v string) In { return In{K: "set", A: k, B: v} }
func del(k string) In    { return In{K: "del", A: k} }
func get(k string) In    { return In{K: "get", A: k} }
func bal(n string) In    { return In{K: "bal", A: n} }
func ev(s string) In     { return In{K: "ev", A: s} }
func burn(n int64) In    { return In{K: "burn", N: n} }
func fail(n int64) In    { return In{K: "fail", N: n} }
func call(to, m string, v int64, catch bool, body ...In) In {
	return In{K: "call", To: to, Method: m, Value: v, Catch: catch, Body: body}
}

func config(rev int64) tx.Config {
	back := Prog{set("f", "1"), get("a"), call("C1", "pay", 1, true, set("b", "9"), bal("C1")), ev("f")}
	return tx.Config{
		Rules: tx.Rules{Costs: tx.Costs{Default: 100, Input: 2, Call: 20}, Price: 1, Invoke: 3000, Rev: rev,
			Owner: map[string]string{"C1": "U1", "C2": "U2", "C3": "U1"},
			Kinds: map[string]tx.Kind{
				"C1":  {Methods: map[string]bool{"run": false, "pay": true, "look": false}, Fallback: true, OnCoins: Prog{ev("got"), set("f", "0")}},
				"C2":  {Methods: map[string]bool{"run": false, "pay": true, "look": false}, Fallback: true, OnCoins: back},
				"C3":  {Methods: map[string]bool{"run": false, "look": false}},
				"SYS": {Methods: map[string]bool{"getRevision": false}, Sys: true, Fallback: true},
			}},
		Bal: map[string]int64{"U1": 1 << 40, "U2": 5000, "C1": 50, "C2": 50, "C3": 5},
	}
}

var (
	leaves = []In{set("a", "1"), set("a", "2"), del("a"), ev("x"), fail(1), burn(9999)}
	few    = []In{set("a", "3"), ev("y"), fail(2)}
)

// seqs gives the programs made of up to n of these.
func seqs(n int, of ...In) (l []Prog) {
	l = append(l, nil)
	for i, last := 0, []Prog{nil}; i < n; i++ {
		var next []Prog
		for _, p := range last {
			for _, x := range of {
				next = append(next, join(p, Prog{x}))
			}
		}
		l = append(l, next...)
		last = next
	}
	return
}

func join(l ...Prog) (r Prog) {
	for _, p := range l {
		r = append(r, p...)
	}
	return
}

// around puts each of the instructions between up to one of before and up to one of after.
func around(before []In, mid []In, after []In) (l []Prog) {
	for _, b := range seqs(1, before...) {
		for _, m := range mid {
			for _, a := range seqs(1, after...) {
				l = append(l, join(b, Prog{m}, a))
			}
		}
	}
	return
}

// target of a call which runs a program.
type target struct {
	to, m string
	v     int64
}

func calls(ts []target, bodies []Prog) (l []In) {
	for _, t := range ts {
		for _, b := range bodies {
			for _, c := range []bool{false, true} {
				l = append(l, call(t.to, t.m, t.v, c, b...))
			}
		}
	}
	return
}

// odd calls run no program of the caller.
func odd() (l []In) {
	for _, t := range []target{{"C2", "", 0}, {"C2", "", 3}, {"C3", "", 0}, {"C3", "", 3}, {"C1", "", 2}, {"U3", "x", 0}, {"U3", "x", 2},
		{"U3", "x", 999}, {"TR", "x", 1}, {"CX", "run", 0}, {"CX", "run", 2}, {"CX", "", 2}, {"CU2", "run", 0}, {"CU2", "", 1}, {"HC1", "x", 0}, {"HC1", "x", 2},
		{"SYS", "getRevision", 0}, {"SYS", "getRevision", 2}, {"SYS", "nothing", 0}, {"SYS", "", 1}, {"C2", "nothing", 0}, {"C2", "fallback", 1}, {"C2", "fallback", 0}, {"C2", "nothing", 1}, {"C2", "run", 1}, {"C2", "look", 1},
		{"C2", "pay", 51}, {"C2", "pay", 50}, {"C2", "<init>", 0}, {"C2", "<init>", 1}} {
		l = append(l, call(t.to, t.m, t.v, false), call(t.to, t.m, t.v, true))
	}
	return
}

// bounded are calls with few steps.
func bounded() (l []In) {
	for _, t := range all {
		for _, b := range []Prog{nil, {set("a", "4")}, {ev("z"), set("b", "1")}, {burn(30)}, {call("C1", "run", 0, true, set("a", "5")), set("b", "2")}} {
			for _, n := range []int64{1, 19, 20, 21, 27, 32, 50} {
				for _, c := range []bool{false, true} {
					i := call(t.to, t.m, t.v, c, b...)
					i.Limit = n
					l = append(l, i)
				}
			}
		}
	}
	for _, t := range []target{{"U3", "x", 1}, {"C2", "", 1}, {"CX", "run", 0}, {"CX", "run", 1}, {"SYS", "getRevision", 0}, {"SYS", "nothing", 0}} {
		for _, n := range []int64{1, 19, 20, 21} {
			i := call(t.to, t.m, t.v, true)
			i.Limit = n
			l = append(l, i)
		}
	}
	return
}

var (
	all   = []target{{"C2", "run", 0}, {"C2", "pay", 3}, {"C1", "run", 0}, {"C1", "pay", 3}, {"C3", "look", 0}, {"C2", "look", 0}}
	some  = []target{{"C2", "run", 0}, {"C1", "pay", 3}, {"C2", "look", 0}}
	three = []target{{"C2", "pay", 2}, {"C1", "run", 0}, {"C3", "look", 0}}
)

// see shows what is there at the end.
func see(p Prog) Prog { return join(p, Prog{get("a"), bal("C1")}) }

type play struct {
	ctx *mc.Ctx
	w   *tx.World
	top string
	n   int
	l   []Tx
	per int
}

func (p *play) add(t Tx) {
	p.l = append(p.l, t)
	if len(p.l) >= p.per {
		p.flush()
	}
}

func (p *play) flush() {
	if len(p.l) == 0 {
		return
	}
	p.ctx.Case("%s: %v", p.top, p.l)
	n := p.w.Step(p.ctx, p.l...)
	p.ctx.State(p.top + n.S.String())
	p.ctx.Trans(len(p.l))
	p.l = nil
	p.n++
	if p.n%8 == 0 { // go on from what is left, for a while
		n.B.Reload()
		p.w = n
	}
}

// families of programs
func families(deep bool) (names []string, m map[string]func() []Prog) {
	m = map[string]func() []Prog{}
	add := func(n string, f func() []Prog) {
		names = append(names, n)
		m[n] = f
	}
	add("straight", func() []Prog {
		if deep {
			return seqs(5, leaves...)
		}
		return seqs(4, leaves...)
	})
	for _, t := range all {
		add("one call of "+t.to+"."+t.m, func() []Prog {
			n := 2
			if deep {
				n = 3
			}
			return around(leaves, calls([]target{t}, seqs(n, leaves...)), leaves[:5])
		})
	}
	add("odd calls", func() []Prog { return around(leaves, odd(), leaves) })
	add("bounded calls", func() []Prog { return around(leaves[:1], bounded(), leaves) })
	for _, t := range all {
		add("two deep through "+t.to+"."+t.m, func() []Prog {
			inner := append(calls(all, seqs(1, leaves...)), odd()...)
			return around(few, calls([]target{t}, around(few, inner, []In{del("a"), fail(3)})), few[:2])
		})
	}
	for _, t := range some {
		add("three deep through "+t.to+"."+t.m, func() []Prog {
			in1 := calls(three, seqs(1, few...))
			in2 := calls(some, around(few[:1], in1, few[2:]))
			l2 := around(few[1:2], in2, few[2:])
			if deep {
				l2 = around(few, in2, few)
			}
			return around(leaves[:1], calls([]target{t}, l2), few[:1])
		})
	}
	for i := range all {
		add(fmt.Sprintf("two calls, first %s.%s", all[i].to, all[i].m), func() (l []Prog) {
			for _, x := range calls(all[i:i+1], seqs(1, few...)) {
				for _, b := range seqs(1, few[:2]...) {
					for _, y := range append(calls(all, seqs(1, leaves...)), odd()...) {
						l = append(l, join(Prog{x}, b, Prog{y}), join(Prog{y}, b, Prog{x}))
					}
				}
			}
			return
		})
	}
	return
}

// kinds of transactions
func kinds(from string, limit int64) (l []Tx) {
	add := func(t Tx) {
		t.From, t.Limit = from, limit
		if t.Kind == "" {
			t.Kind = "call"
		}
		l = append(l, t)
	}
	for _, x := range []struct {
		to string
		v  int64
	}{{"U3", 5}, {"U3", 0}, {from, 4}, {"TR", 1}, {"SYS", 6}, {"SYS", 0}, {"C1", 7}, {"C1", 0}, {"C2", 3}, {"C2", 0}, {"C3", 2}, {"C3", 0}, {"CX", 0}, {"CX", 2}, {"CU2", 1}, {"HC1", 1}, {"HC1", 0}} {
		add(Tx{Kind: "transfer", To: x.to, Value: x.v})
		if x.to == "U3" || x.to == "C1" || x.to == "C3" || x.to == "CX" {
			add(Tx{Kind: "message", To: x.to, Value: x.v, Data: "0x1234"})
		}
	}
	add(Tx{Kind: "message", To: "U3", Data: "a <b> \u00e9\n"})
	for _, x := range []struct {
		to, m string
		v     int64
	}{{"C1", "run", 0}, {"C1", "run", 1}, {"C1", "pay", 2}, {"C1", "look", 0}, {"C1", "look", 1}, {"C1", "<init>", 0}, {"C1", "<init>", 1}, {"C1", "nothing", 0}, {"C1", "nothing", 1},
		{"U3", "run", 0}, {"U3", "run", 1}, {"CX", "run", 0}, {"CX", "run", 1}, {"CU2", "run", 0}, {"HC1", "run", 0}, {"SYS", "getRevision", 0}, {"SYS", "getRevision", 1}, {"SYS", "nothing", 0}} {
		add(Tx{To: x.to, Method: x.m, Value: x.v, Body: Prog{get("a")}})
	}
	for _, b := range []Prog{{set("a", "1"), ev("e")}, {set("a", "1"), fail(1)}, {burn(9999)}, {call("U3", "", 9, false), set("b", "2")}, {call("SYS", "", 1, false)},
		{set("a", "3"), call("C2", "pay", 4, true, set("a", "1"), ev("i"), burn(30)), ev("o")}, {call("C2", "run", 0, true, call("C1", "pay", 1, false, set("a", "6")), fail(2)), set("b", "7")},
		{call("C3", "look", 0, false, get("a")), del("a")}, {call("U1", "", 40, false)}, {call("U4", "", 40, false), call("C2", "", 2, true)}} {
		add(Tx{To: "C1", Method: "run", Body: b})
	}
	for _, d := range []string{`{"action":"add"}`, `{"action":"withdraw"}`, `{"action":"x"}`} {
		add(Tx{Kind: "deposit", To: "C1", Value: 3, Data: d})
		add(Tx{Kind: "deposit", To: "C1", Data: d})
		add(Tx{Kind: "deposit", To: "C2", Data: d})
		add(Tx{Kind: "deposit", To: "U3", Data: d})
	}
	return
}

func chain(price, rev, def int64) tx.Config {
	c := config(rev)
	c.Price = price
	c.Costs.Default = def
	c.Invoke = 400
	return c
}

// need is what the transaction uses with all it may ask for.
func need(w *tx.World, t Tx) int64 {
	_, n := w.Make(t)
	t.Limit = w.R.Invoke
	s := w.S.Copy()
	s.Bal[t.From] = 1 << 40
	r, _ := w.R.Exec(s, t, n)
	return r.Used
}

// limits: every limit of steps there is for each kind of transaction.
func limits(ctx *mc.Ctx, price, rev int64) {
	w := tx.Open(ctx, chain(price, rev, 50))
	defer w.C.Close()
	p := &play{ctx: ctx, w: w, per: 4, top: fmt.Sprintf("price %d rev %d ", price, rev)}
	for _, t := range kinds("U1", 0) {
		n := need(w, t)
		for i := int64(0); i < n+2; i++ {
			t.Limit = i
			p.add(t)
		}
		for _, i := range []int64{w.R.Invoke - 1, w.R.Invoke, w.R.Invoke + 1, 1 << 30} {
			t.Limit = i
			p.add(t)
		}
		p.flush()
		ctx.Case("%s: estimate %v", p.top, t)
		p.w.Guess(ctx, t)
		ctx.Trans(1)
	}
}

// balances: the sender has just enough or not for what it asks for, uses, or gives.
func balances(ctx *mc.Ctx, price int64, def int64) {
	w := tx.Open(ctx, chain(price, 7, def))
	defer w.C.Close()
	for _, t := range kinds("U4", 0) {
		n := need(w, t)
		t.Limit = n
		for _, l := range []int64{n, n - 1, n + 3, def, def - 1, 0, w.R.Invoke + 50} {
			if l < 0 {
				continue
			}
			t.Limit = l
			have := map[int64]bool{}
			for _, b := range []int64{0, l*price + t.Value, l * price, t.Value, n*price + t.Value, n * price, def * price, def*price + t.Value, w.R.Invoke * price} {
				for d := int64(-1); d < 2; d++ {
					if b+d < 0 || have[b+d] {
						continue
					}
					have[b+d] = true
					give := Tx{From: "U1", To: "U4", Kind: "transfer", Value: b + d, Limit: 200}
					ctx.Case("price %d, least %d: %d for %v", price, def, b+d, t)
					x := w.Step(ctx, give, t)
					ctx.State(x.S.String())
					ctx.Trans(2)
					if l == n {
						x = w.Step(ctx, give)
						x.Guess(ctx, t)
						ctx.Trans(2)
					}
				}
			}
		}
	}
}

// blocks: transactions see what those before them left, and nothing of those which failed.
func blocks(ctx *mc.Ctx, first int) {
	w := tx.Open(ctx, chain(3, 7, 50))
	defer w.C.Close()
	see := func(b ...In) Prog { return append(b, get("a"), get("b"), bal("C1"), bal("U2"), bal("U3")) }
	l := []Tx{
		{From: "U1", To: "U3", Kind: "transfer", Value: 300, Limit: 60},
		{From: "U3", To: "U2", Kind: "transfer", Value: 20, Limit: 70},
		{From: "U2", To: "U3", Kind: "transfer", Value: 4000, Limit: 50},
		{From: "U2", To: "C1", Kind: "call", Method: "pay", Value: 3000, Limit: 280, Body: see(set("a", "1"))},
		{From: "U1", To: "C1", Kind: "call", Method: "run", Limit: 300, Body: see(set("a", "2"), set("b", "1"), ev("x"), call("U2", "", 30, false))},
		{From: "U1", To: "C1", Kind: "call", Method: "run", Limit: 300, Body: see(del("a"), set("b", "2"), call("U2", "", 30, false), fail(1))},
		{From: "U1", To: "C1", Kind: "call", Method: "run", Limit: 350, Body: see(call("C2", "pay", 5, true, set("a", "7"), call("C1", "run", 0, false, set("b", "4")), fail(3)), call("C1", "run", 0, true, del("a")))},
		{From: "U1", To: "C1", Kind: "call", Method: "run", Limit: 350, Body: see(call("C2", "pay", 25, true, set("a", "7"), call("C1", "run", 0, false, set("b", "4")), burn(500)))},
		{From: "U1", To: "C2", Kind: "call", Method: "run", Limit: 350, Body: see(del("a"), call("C1", "", 20, true), call("U3", "", 20, true))},
		{From: "U1", To: "C1", Kind: "call", Method: "look", Limit: 200, Body: see()},
		{From: "U1", To: "SYS", Kind: "transfer", Value: 9, Limit: 100},
		{From: "U2", To: "CX", Kind: "transfer", Value: 9, Limit: 100},
		{From: "U3", To: "C1", Kind: "message", Data: "0x12", Limit: 100},
		{From: "U1", To: "C2", Kind: "transfer", Value: 1, Limit: 390},
	}
	n := 3
	if ctx.Thorough() {
		n = 4
	}
	var rec func(ts []Tx, n int)
	rec = func(ts []Tx, n int) {
		ctx.Case("%v", ts)
		x := w.Step(ctx, ts...)
		ctx.State(x.S.String())
		ctx.Trans(len(ts))
		if n == 0 {
			return
		}
		for _, t := range l {
			rec(append(ts[:len(ts):len(ts)], t), n-1)
		}
	}
	rec([]Tx{l[first]}, n)
}

// deaths: the engine dies anywhere in a transaction, which is executed again as if nothing had happened, or the block is given up.
func deaths(ctx *mc.Ctx, n int64) {
	w := tx.Open(ctx, chain(3, 7, 50))
	defer w.C.Close()
	die := In{K: "die", N: n}
	other := Tx{From: "U2", To: "C2", Kind: "call", Method: "pay", Value: 3, Limit: 300, Body: Prog{set("a", "8"), call("C1", "pay", 2, false, set("b", "8"), ev("i")), get("a")}}
	bodies := around(few, []In{die}, few)
	for _, t := range append(all, target{"C1", "run", 0}) {
		for _, in := range around(few[:2], []In{die}, few[1:]) {
			for _, b := range around(few[:1], []In{call(t.to, t.m, t.v, false, in...), call(t.to, t.m, t.v, true, in...)}, few[1:2]) {
				bodies = append(bodies, b)
			}
		}
		for _, in := range seqs(2, few...) { // after a call
			bodies = append(bodies, Prog{few[0], call(t.to, t.m, t.v, true, in...), die, few[1]})
		}
		for _, t2 := range some {
			bodies = append(bodies, Prog{few[0], call(t.to, t.m, t.v, true, call(t2.to, t2.m, t2.v, true, set("a", "9"), die, ev("z"))), few[1]},
				Prog{few[0], call(t.to, t.m, t.v, true, call(t2.to, t2.m, t2.v, true, set("a", "9")), die, ev("z")), few[1]})
		}
	}
	for i, b := range bodies {
		t := Tx{From: "U1", To: "C1", Kind: "call", Method: "run", Limit: 390, Body: see(b)}
		if i%3 == 1 {
			t.Method, t.Value = "pay", 2
		}
		ctx.Case("the engine dies %d times: %v", n, t)
		if n > 2 && reaches(w, t) {
			w.Stuck(ctx, other, t)
			w.Step(ctx, other)
			ctx.Trans(2)
			continue
		}
		x := w.Step(ctx, other, t, other)
		ctx.State(x.S.String())
		ctx.Trans(3)
	}
}

// reaches tells whether the engine would come to die.
func reaches(w *tx.World, t Tx) bool {
	_, n := w.Make(t)
	w.R.Exec(w.S.Copy(), t, n)
	return w.R.Dies
}

func units(deep bool) (names []string, m map[string]func(*mc.Ctx)) {
	m = map[string]func(*mc.Ctx){}
	add := func(n string, f func(*mc.Ctx)) {
		names = append(names, n)
		m[n] = f
	}
	fs, programs := families(deep)
	for _, n := range fs {
		add(n, func(ctx *mc.Ctx) {
			for _, rev := range []int64{7, 0} {
				if rev == 0 && !deep && (n[:3] == "two" || n[:3] == "thr") {
					continue
				}
				w := tx.Open(ctx, config(rev))
				p := &play{ctx: ctx, w: w, per: 8, top: fmt.Sprintf("rev %d ", rev)}
				for i, b := range programs[n]() {
					t := Tx{From: "U1", To: "C1", Kind: "call", Method: "run", Limit: 2000, Body: see(b)}
					if i%3 == 1 {
						t.Method, t.Value = "pay", 2
					}
					p.add(t)
				}
				p.flush()
				w.C.Close()
			}
		})
	}
	for _, price := range []int64{0, 1, 3} {
		add(fmt.Sprintf("limits of steps at price %d", price), func(ctx *mc.Ctx) { limits(ctx, price, 7) })
		for _, def := range []int64{0, 50} {
			add(fmt.Sprintf("balances at price %d, at least %d steps", price, def), func(ctx *mc.Ctx) { balances(ctx, price, def) })
		}
	}
	add("limits of steps at revision 0", func(ctx *mc.Ctx) { limits(ctx, 3, 0) })
	for n := int64(1); n < 4; n++ {
		add(fmt.Sprintf("the engine dies %d times", n), func(ctx *mc.Ctx) { deaths(ctx, n) })
	}
	for i := 0; i < 14; i++ {
		add(fmt.Sprintf("blocks from transaction %d", i), func(ctx *mc.Ctx) { blocks(ctx, i) })
	}
	return
}

func main() {
	mc.Main(mc.Check{
		Units: func(tier string) (l []string) {
			n, _ := units(false)
			return n
		},
		Run: func(unit string, ctx *mc.Ctx) {
			_, m := units(ctx.Thorough())
			m[unit](ctx)
		},
	})
}
