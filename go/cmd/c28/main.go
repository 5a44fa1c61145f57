package main

import (
	"fmt"
	"strconv"
	"strings"

	"vgo/cons"
	"vgo/mc"
)

type Ev = cons.Ev

func P(r int32, x string) Ev  { return Ev{K: 'P', R: r, X: x, By: -1, Pol: -1} }
func PV(r int32, x string) Ev { return Ev{K: 'V', R: r, T: cons.Prevote, X: x, By: -1} }
func PC(r int32, x string) Ev { return Ev{K: 'V', R: r, T: cons.Precommit, X: x, By: -1} }
func D(x string) Ev           { return Ev{K: 'D', X: x} }

var I, T = Ev{K: 'I'}, Ev{K: 'T'}

// where explorations start, for a node which does not propose in the first rounds
var starts = map[string][]Ev{
	"begin":      nil,
	"proposed":   {P(0, "A")},
	"prevoted":   {P(0, "A"), I},
	"nil":        {T, PV(0, "-")},
	"locked":     {P(0, "A"), I, PV(0, "A")},
	"locked-r1":  {P(0, "A"), I, PV(0, "A"), PC(0, "-,-,-")},
	"relocked":   {P(0, "A"), I, PV(0, "A"), PV(2, "A")},
	"other":      {P(0, "A"), I, PV(0, "A"), PV(1, "B")},
	"other-has":  {P(0, "A"), I, PV(0, "A"), PC(0, "-,-,-"), P(1, "B"), PV(1, "B")},
	"committed":  {PC(0, "A")},
	"flying":     {P(0, "A"), {K: 'F'}},
	"pol":        {PV(0, "A"), PC(0, "-,-,-")},
	"locked-c":   {P(0, "A"), I, PV(0, "A"), {K: 'C'}},
	"relocked-c": {P(0, "A"), I, PV(0, "A"), PV(2, "A"), {K: 'C'}},
	"other-c":    {P(0, "A"), I, PV(0, "A"), PC(0, "-,-,-"), P(1, "B"), PV(1, "B"), {K: 'C'}},
}

var order = []string{"begin", "proposed", "prevoted", "nil", "locked", "locked-r1", "relocked", "other", "other-has", "committed", "locked-c", "relocked-c", "other-c", "pol", "flying"}

func main() {
	mc.Main(mc.Check{
		Units: func(tier string) (l []string) {
			for p := 0; p < 6; p++ {
				l = append(l, fmt.Sprintf("network 2 2 %d/6", p))
			}
			for _, s := range order {
				l = append(l, "coarse 0 "+s)
			}
			for me := 1; me < 4; me++ {
				l = append(l, fmt.Sprintf("coarse %d begin", me))
			}
			for me := 1; me < 4; me++ {
				l = append(l, fmt.Sprintf("fine %d begin", me))
			}
			for _, s := range order {
				switch s {
				case "begin", "prevoted", "locked", "other", "relocked-c":
				default:
					if tier != "thorough" {
						continue
					}
				}
				l = append(l, "fine 0 "+s)
			}
			for n := 1; n <= 4; n++ {
				l = append(l, fmt.Sprintf("network %d 1 0/1", n))
			}
			l = append(l, "rules", "votes 0 prevoted", "votes 0 locked")
			if tier == "thorough" {
				for p := 0; p < 8; p++ {
					l = append(l, fmt.Sprintf("network 3 2 %d/8", p))
				}
				for p := 0; p < 24; p++ {
					l = append(l, fmt.Sprintf("network 4 2 %d/24", p))
				}
			}
			return
		},
		Run: func(unit string, ctx *mc.Ctx) {
			f := strings.Fields(unit)
			num := func(s string) int { n, err := strconv.Atoi(s); mc.Must(err); return n }
			switch f[0] {
			case "network":
				p, ps, _ := strings.Cut(f[3], "/")
				cons.NewWorld(num(f[1]), 0).Schedules(ctx, 2, num(f[2]), "hHtcliw", num(p), num(ps))
				return
			case "rules":
				rules(ctx)
				return
			}
			w := cons.NewWorld(4, 0)
			b := cons.Bounds{Me: num(f[1]), Depth: 2, Rounds: 4, Crashes: 1, Names: []string{"A", "B"}, Props: []string{"A", "B"}, Prefix: starts[f[2]], Pols: true}
			if f[0] == "fine" {
				b.Fine, b.Rounds, b.Bogus, b.Pols = true, 2, true, false
				b.Names = []string{"A", "A2"}
				b.Props = []string{"A", "A2", "B", "X", "U"}
				b.Crashes = 0
			}
			if f[0] == "votes" {
				w.Explore(ctx, cons.Bounds{Me: 0, Depth: 4, Rounds: 1, Fine: true, Names: []string{"A"}, Prefix: starts[f[2]]})
				return
			}
			if f[2] == "pol" {
				b.Props = []string{"A", "A2", "B"}
			}
			if ctx.Thorough() {
				b.Depth = 3
			}
			w.Explore(ctx, b)
		},
	})
}

// rules checks that the rules by which nodes are judged are enough, and that they are needed.
func rules(ctx *mc.Ctx) {
	for _, c := range [][2]int{{1, 0}, {2, 0}, {3, 0}, {4, 1}, {5, 1}, {6, 1}, {7, 2}} {
		ctx.Case("rules: %d validators, %d may do anything", c[0], c[1])
		n, broken := cons.Agreement(c[0], c[1], true)
		ctx.Trans(n)
		for i := 0; i < n; i++ {
			ctx.NewState(fmt.Sprint(c, i))
		}
		if broken {
			ctx.Fail("%d validators of which %d may do anything can decide two blocks by the rules", c[0], c[1])
		}
		if _, broken := cons.Agreement(c[0], c[1], false); !broken {
			ctx.Fail("the rules of locks are not needed for %d validators", c[0])
		}
		for bad := c[1] + 1; bad < c[0]; bad++ {
			// two majorities have no honest voter in common
			common := 2*(2*c[0]/3+1) - c[0] - bad
			if _, broken := cons.Agreement(c[0], bad, true); broken != (common <= 0) {
				ctx.Fail("%d validators of which %d may do anything: can decide two blocks: %v", c[0], bad, broken)
			}
		}
	}
}
