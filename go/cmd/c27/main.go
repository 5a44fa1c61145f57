// C27: a block is taken exactly if it is the right next one with enough votes.
package main

import (
	"fmt"
	"strings"

	"vgo/mc"
	"vgo/take"
)

func main() {
	mc.Main(mc.Check{
		Units: func(tier string) []string {
			l := []string{"fields", "bits"}
			for v := 1; v <= 7; v++ {
				l = append(l, fmt.Sprintf("votes/%d", v), fmt.Sprintf("patches/%d", v))
			}
			for from := 1; from <= 4; from++ {
				for to := 1; to <= 4; to++ {
					l = append(l, fmt.Sprintf("change/%d/%d", from, to))
				}
			}
			for i := 0; i < take.Ops; i++ {
				l = append(l, fmt.Sprintf("trees/%d", i))
			}
			return l
		},
		Run: func(u string, c *mc.Ctx) {
			p := strings.Split(u, "/")
			n := []int{0, 0, 0}
			for i, s := range p[1:] {
				fmt.Sscan(s, &n[i])
			}
			switch p[0] {
			case "fields":
				take.Fields(c)
			case "bits":
				take.Bits(c)
			case "votes":
				take.VotesOf(c, n[0])
			case "patches":
				take.Patches(c, n[0])
			case "change":
				take.Change(c, n[0], n[1])
			case "trees":
				take.Trees(c, n[0])
			}
		},
	})
}
