// C26: whatever is sent or proposed, only valid transactions get in, and the chain goes on.
package main

import (
	"fmt"
	"strings"

	"vgo/entry"
	"vgo/mc"
)

func main() {
	mc.Main(mc.Check{
		Units: func(tier string) []string {
			var l []string
			for _, on := range []string{"off", "on"} {
				for i := range entry.Families() {
					for _, w := range entry.Ways {
						l = append(l, fmt.Sprintf("%s/%d/%s", on, i, w))
					}
				}
				l = append(l, on+"/base", on+"/edges")
			}
			l = append(l, "one/life", "more/life", "all/lists")
			for i := 0; i < 16; i++ {
				l = append(l, fmt.Sprintf("all/sums/%d", i))
			}
			return l
		},
		Run: func(u string, c *mc.Ctx) {
			p := strings.Split(u, "/")
			on := p[0] == "on"
			more := 0
			if c.Thorough() {
				more = 1
			}
			switch p[1] {
			case "sums":
				var first int
				fmt.Sscanf(p[2], "%d", &first)
				entry.Sums(c, first, 3+more)
			case "lists":
				entry.Lists(c, 2+more)
			case "life":
				entry.Lives(c, p[0] == "more")
			case "edges":
				entry.Edges(c, on)
			case "base":
				entry.Bases(c, on)
			default:
				var fam int
				fmt.Sscanf(p[1], "%d", &fam)
				entry.Family(c, on, fam, p[2])
			}
		},
	})
}
