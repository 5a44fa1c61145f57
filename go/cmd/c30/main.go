package main

import (
	"fmt"

	"vgo/logs"
	"vgo/mc"
)

var ops = []logs.Op{{K: 'W', N: 1}, {K: 'W', N: 9}, {K: 'S'}, {K: 'R'}, {K: 'H'}}
var big = []logs.Op{{K: 'W', N: 3}, {K: 'W', N: 5000}, {K: 'W', N: 4088}, {K: 'S'}, {K: 'R'}}

var huge = []logs.Op{{K: 'W', N: 70000}, {K: 'W', N: 3}, {K: 'S'}, {K: 'R'}}

var confs = []logs.Conf{{File: 15, Total: 40}, {File: 30, Total: 31}, {File: 1000, Total: 3000}}

// the log began long ago
var firsts = []int{9, 255, 65535, 1<<32 - 1}

func main() {
	mc.Main(mc.Check{
		Units: func(tier string) (l []string) {
			for c := range confs {
				for o := range ops {
					l = append(l, fmt.Sprintf("crashes %d %d", c, o), fmt.Sprintf("rot %d %d", c, o))
				}
			}
			for o := range big {
				l = append(l, fmt.Sprintf("big 2 %d", o))
			}
			for o := range huge {
				l = append(l, fmt.Sprintf("huge 2 %d", o))
			}
			for i := range firsts {
				l = append(l, fmt.Sprintf("first %d 0", i))
			}
			l = append(l, "reset 0 0")
			return
		},
		Run: func(unit string, ctx *mc.Ctx) {
			var what string
			var c, o int
			fmt.Sscan(unit, &what, &c, &o)
			b := logs.NewBox()
			defer b.Done()
			depth := 6
			if ctx.Thorough() {
				depth = 7
			}
			switch what {
			case "crashes":
				logs.Seqs(ops, depth, func(p []logs.Op) {
					if p[0] == ops[o] {
						b.Crashes(ctx, confs[c], p, 1)
					}
				})
			case "rot":
				logs.Seqs(ops, depth-1, func(p []logs.Op) {
					if p[0] == ops[o] {
						b.Rot(ctx, confs[c], p)
					}
				})
			case "big":
				logs.Seqs(big, depth-2, func(p []logs.Op) {
					if p[0] == big[o] {
						b.Crashes(ctx, confs[c], p, 97)
					}
				})
			case "huge":
				logs.Seqs(huge, depth-2, func(p []logs.Op) {
					if p[0] == huge[o] {
						b.Crashes(ctx, confs[2], p, 9973)
					}
				})
			case "first":
				logs.Seqs(ops, depth-2, func(p []logs.Op) {
					k := confs[0]
					k.First = firsts[c]
					b.Crashes(ctx, k, p, 1)
				})
			case "reset":
				logs.Reset(ctx)
			}
		},
	})
}
