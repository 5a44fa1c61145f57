package hv

import "vgo/mc"

// Demo plays blocks on a new chain and compares the chain with the model after each.
func Demo(cfg Config, blocks ...[]Op) {
	d := mc.Demo()
	w := Open(d, cfg)
	defer w.C.Close()
	for _, ops := range blocks {
		w = w.Step(d, ops...)
		w.Check(d)
		w.B.Reload()
	}
}
