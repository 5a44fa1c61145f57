package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/icon-project/goloop/consensus"

	"vgo/cons"
	"vgo/mc"
)

func main() {
	mc.Main(mc.Check{
		Units: func(tier string) (l []string) {
			for size := 2; size < 8; size++ {
				l = append(l, fmt.Sprintf("parts %d 24", size))
			}
			l = append(l, "parts 33 110", "many 127", "many 129", "many 300", "blocks", "forged 5 1 4 5 6 10 11", "forged 40 39 40 41 80 130", "proofs", "bits")
			for i := 0; i < 7; i++ {
				l = append(l, fmt.Sprintf("damaged %d", i))
				if i < 5 {
					l = append(l, fmt.Sprintf("odd %d", i))
				}
			}
			for i := 0; i < 8; i++ {
				l = append(l, fmt.Sprintf("states %d 8", i))
			}
			for _, p := range []int{1, 2, 3, 63, 64, 65, 128} {
				l = append(l, fmt.Sprintf("behind %d", p))
			}
			l = append(l, "votes", "halves 1", "halves 2", "halves 3")
			return
		},
		Run: func(unit string, ctx *mc.Ctx) {
			f := strings.Fields(unit)
			var v []int
			for _, x := range f[1:] {
				i, err := strconv.Atoi(x)
				mc.Must(err)
				v = append(v, i)
			}
			switch f[0] {
			case "parts":
				cons.Parts(ctx, v[0], v[1])
			case "many":
				cons.Many(ctx, v[0])
			case "blocks":
				for k := 1; k <= 3; k++ {
					for d := -1; d <= 1; d++ {
						cons.Block(ctx, consensus.ConfigBlockPartSize*k+d)
					}
				}
			case "forged":
				cons.Forged(ctx, v[0], v[1:])
			case "proofs":
				cons.Proofs(ctx)
			case "bits":
				cons.Bits(ctx)
			case "damaged":
				cons.Damaged(ctx, v[0])
			case "odd":
				cons.Odd(ctx, v[0])
			case "states":
				cons.States(ctx, v[0], v[1])
			case "behind":
				ctx.Case("%s", unit)
				cons.Behinds(ctx, v[0])
			case "halves":
				cons.Halves(ctx, v[0])
			case "votes":
				cons.Votes(ctx)
			}
		},
	})
}
