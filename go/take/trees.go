package take

import (
	"bytes"
	"fmt"

	"github.com/icon-project/goloop/block"
	"github.com/icon-project/goloop/module"
	"vgo/mc"
	. "vgo/node"
)

// the tree of blocks: names and parents; r is the last finalized block of all.
var tree = []struct{ name, parent string }{{"A", "r"}, {"B", "r"}, {"C", "A"}, {"D", "B"}, {"E", "C"}}

// Ops are: take a block, finalize it, start again.
var Ops = 2*len(tree) + 1

func opName(o int) string {
	switch {
	case o < len(tree):
		return "take " + tree[o].name
	case o < 2*len(tree):
		return "finalize " + tree[o-len(tree)].name
	}
	return "restart"
}

type forest struct {
	d     *mc.DB
	bytes map[string][]byte
	ids   map[string][]byte
	txs   map[string]module.Transaction
	h     int64
}

func newForest(c *mc.Ctx) *forest {
	d := mc.NewDB()
	w := &World{c: c, vals: 4}
	var err error
	w.a, err = Open(mc.NewDB(), engine(), genesis(4), 0)
	mc.Must(err)
	w.b, err = Open(d, engine(), genesis(4), 9)
	mc.Must(err)
	defer w.Close()
	w.step()
	w.now = start
	w.send(true)
	w.step()
	f := &forest{bytes: map[string][]byte{}, ids: map[string][]byte{}, txs: map[string]module.Transaction{}, h: w.a.Last().Height()}
	cands := map[string]module.BlockCandidate{}
	mk := func(name string, parent module.Block) {
		w.now += sec
		bc, err := w.a.Propose(parent.ID(), Votes(parent, 0, w.now, 0, 1, 2, 3))
		mc.Must(err)
		w.seq++
		tx := Tx(0, mc.J{"to": mc.User(1).String(), "timestamp": Hex(start), "nonce": Hex(w.seq), "value": "0x1"})
		bs := With(Bytes(bc), func(h *block.V2HeaderFormat, d *block.V2BodyFormat) { w.a.SetTxs(h, d, tx) })
		o, err := w.a.Take(bs, 0)
		mc.Must(err)
		f.bytes[name], f.ids[name], cands[name], f.txs[name] = bs, o.ID(), o, tx
	}
	mk("A", w.a.Last())
	mk("B", w.a.Last())
	mk("D", cands["B"])
	mk("C", cands["A"])
	mc.Must(w.a.BM.Finalize(cands["A"]))
	mk("E", cands["C"])
	f.d = d.Copy()
	f.ids["r"] = w.b.Last().ID()
	return f
}

// Trees are all sequences of taking and finalizing blocks of two branches, and restarts.
func Trees(c *mc.Ctx, first int) {
	f := newForest(c)
	most := 6
	if c.Thorough() {
		most = 8
	}
	var walk func(l []int)
	walk = func(l []int) {
		if !f.run(c, l) || len(l) == most {
			return
		}
		for o := 0; o < Ops; o++ {
			walk(append(append([]int(nil), l...), o))
		}
	}
	walk([]int{first})
}

// Tree runs one sequence.
func Tree(ops ...int) { c := mc.Demo(); newForest(c).run(c, ops) }

// run runs a sequence; false if its last operation changes nothing.
func (f *forest) run(c *mc.Ctx, ops []int) bool {
	var names []string
	for _, o := range ops {
		names = append(names, opName(o))
	}
	c.Case("%v", names)
	d := f.d.Copy()
	n, err := Open(d, engine(), genesis(4), 9)
	mc.Must(err)
	defer func() { n.Close() }()
	last := "r"
	chain := []string{}
	known := map[string]module.BlockCandidate{}
	parent := func(s string) string {
		for _, t := range tree {
			if t.name == s {
				return t.parent
			}
		}
		return ""
	}
	under := func(s, top string) bool {
		for s != "" && s != top {
			s = parent(s)
		}
		return s == top
	}
	changed := false
	for _, o := range ops {
		changed = true
		c.Trans(1)
		switch {
		case o < len(tree):
			t := tree[o]
			want := t.parent == last || known[t.parent] != nil && parent(t.parent) == last
			bc, err := n.Take(f.bytes[t.name], 0)
			if (err == nil) != want {
				c.Fail("%s: %v (expected %v)", opName(o), err, want)
				return false
			}
			if err == nil {
				if !bytes.Equal(bc.ID(), f.ids[t.name]) {
					c.Fail("%s: another ID", opName(o))
				}
				changed = known[t.name] == nil
				known[t.name] = bc
			} else {
				changed = false
			}
		case o < 2*len(tree):
			t := tree[o-len(tree)]
			bc := known[t.name]
			if bc == nil {
				changed = false
				break
			}
			want := t.parent == last
			err := n.BM.Finalize(bc)
			if (err == nil) != want {
				c.Fail("%s: %v (expected %v)", opName(o), err, want)
				return false
			}
			if err != nil {
				changed = false
				break
			}
			last = t.name
			chain = append(chain, last)
			for k := range known {
				if k == last || !under(k, last) {
					delete(known, k)
				}
			}
		default:
			n.Close()
			changed = len(known) > 0 || len(chain) > 0
			known = map[string]module.BlockCandidate{}
			var err error
			n, err = Open(d, engine(), genesis(4), 9)
			if err != nil {
				c.Fail("the node does not start again: %v", err)
				n, _ = Open(f.d.Copy(), engine(), genesis(4), 9)
				return false
			}
		}
	}
	c.State(last, len(known), fmt.Sprint(chain), keys(known))
	if !bytes.Equal(n.Last().ID(), f.ids[last]) || n.Last().Height() != f.h+int64(len(chain)) {
		c.Fail("the last block is of height %d", n.Last().Height())
		return false
	}
	for i, s := range chain {
		b, err := n.BM.GetBlockByHeight(f.h + 1 + int64(i))
		if err != nil || !bytes.Equal(b.ID(), f.ids[s]) {
			c.Fail("block %d is not %s: %v", i, s, err)
		}
		b, err = n.BM.GetBlock(f.ids[s])
		if err != nil || b.Height() != f.h+1+int64(i) || !bytes.Equal(Bytes(b), f.bytes[s]) {
			c.Fail("block %s is not found by its ID as it was taken: %v", s, err)
		}
		if x, err := n.BM.GetTransactionInfo(f.txs[s].ID()); err != nil || !bytes.Equal(x.Block().ID(), f.ids[s]) {
			c.Fail("the transaction of %s is not found: %v", s, err)
		}
	}
	for _, t := range tree {
		if in(chain, t.name) {
			continue
		}
		if b, err := n.BM.GetBlock(f.ids[t.name]); err == nil && b != nil {
			c.Fail("block %s, which was not finalized, is found", t.name)
		}
		if _, err := n.BM.GetTransactionInfo(f.txs[t.name].ID()); err == nil {
			c.Fail("the transaction of %s, which was not finalized, is found", t.name)
		}
	}
	if _, err := n.BM.GetBlockByHeight(f.h + 1 + int64(len(chain))); err == nil {
		c.Fail("there is a block after the last one")
	}
	for _, t := range tree {
		if t.parent == last {
			if _, err := n.Take(f.bytes[t.name], 0); err != nil {
				c.Fail("%s can not be taken at the end: %v", t.name, err)
			}
		}
	}
	return changed
}

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func keys(m map[string]module.BlockCandidate) (r []bool) {
	for _, t := range tree {
		r = append(r, m[t.name] != nil)
	}
	return
}
