package mc

import (
	"fmt"
	"os"
)

// Bad ends a demonstration which found the property broken.
func Bad(format string, v ...any) {
	fmt.Printf("BROKEN: "+format+"\n", v...)
	os.Exit(1)
}

// Demo is a context in which the first failure ends the program.
func Demo() *Ctx {
	return &Ctx{Tier: "demo", states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, notes: map[string]int64{}}
}
