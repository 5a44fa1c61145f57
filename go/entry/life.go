package entry

import (
	"encoding/hex"

	"github.com/icon-project/goloop/module"
	"vgo/mc"
	. "vgo/node"
)

// Life is a chain from its start over some terms.
type Life struct {
	Period, Cycle, Limit, Amount int64
	Rev                          int64
	Vals                         int   // validators to register
	Count                        int64 // of them active
	Check, Allow                 int64
	Absent                       int // the validator which does not vote; -1 for none
	Blocks                       int
}

func Lives(c *mc.Ctx, more bool) {
	if !more {
		for _, period := range []int64{1, 2, 3} {
			for _, cycle := range []int64{1, 2, 3} {
				for _, limit := range []int64{0, 1, 2, 4} {
					for _, amount := range []int64{0, 1, 4, 1000} {
						Live(c, Life{period, cycle, limit, amount, 4, 0, 0, 0, 0, -1, int(period)*7 + 4})
					}
				}
			}
		}
		return
	}
	for rev := int64(4); rev <= 7; rev++ {
		for _, vals := range []int{1, 4, 5} {
			for _, count := range []int64{1, 4} {
				for _, period := range []int64{1, 3, 4} {
					for _, check := range []int64{0, 1, 2, 3} {
						for _, absent := range []int{-1, 1, 4} {
							if int64(vals) < count || absent >= vals || absent >= 0 && count < 4 || rev > 4 && !c.Thorough() && (period != 3 || check != 2) {
								continue
							}
							Live(c, Life{period, 2, 3, 100, rev, vals, count, check, 1, absent, int(period)*4 + 5})
						}
					}
				}
			}
		}
	}
}

func Live(c *mc.Ctx, l Life) {
	c.Case("%+v", l)
	g := MakeGenesis(1, mc.J{"revision": Hex(l.Rev)}, mc.J{"termPeriod": Hex(l.Period), "issueReductionCycle": Hex(l.Cycle), "issueLimit": Hex(l.Limit), "issueAmount": Hex(l.Amount)})
	w := OpenOn(c, g)
	defer func() { w.n.Close() }()
	f, err := Open(mc.NewDB(), engine(), g, 7)
	mc.Must(err)
	defer f.Close()
	for h := int64(1); h <= w.n.Last().Height(); h++ {
		b, err := w.n.BM.GetBlockByHeight(h)
		mc.Must(err)
		if !follow(c, f, Bytes(b)) {
			return
		}
	}
	ids := [][]byte{w.send("startRewardIssue", mc.J{"height": Hex(w.n.Last().Height() + 4)})}
	for i := 0; i < l.Vals; i++ {
		grade := "main"
		if i == 4 {
			grade = "sub"
		}
		ids = append(ids, w.send("registerValidator", mc.J{"owner": mc.User(20 + i).String(), "nodePublicKey": "0x" + hex.EncodeToString(Wallet(i).PublicKey()), "grade": grade, "name": "v"}))
	}
	if l.Vals > 0 {
		ids = append(ids, w.send("setActiveValidatorCount", mc.J{"count": Hex(l.Count)}),
			w.send("setBlockVoteCheckParameters", mc.J{"period": Hex(l.Check), "allowance": Hex(l.Allow)}))
	}
	for i := 0; i < l.Blocks; i++ {
		w.now += ms
		c.Trans(1)
		var who []int
		vs := w.voters()
		for _, v := range vs {
			if v != l.Absent || len(vs) < 4 {
				who = append(who, v)
			}
		}
		c.State(l, i, vs)
		bc, err := w.n.Propose(w.n.Last().ID(), Votes(w.n.Last(), 0, w.now, who...))
		if err != nil {
			c.Fail("the chain stops at height %d: %v", w.n.Last().Height()+1, err)
			return
		}
		bs := Bytes(bc)
		if _, err := w.n.Take(bs, 0); err != nil {
			c.Fail("the block of height %d, which is proposed, is refused: %v", bc.Height(), err)
			return
		}
		if err := w.n.BM.Finalize(bc); err != nil {
			c.Fail("height %d: %v", bc.Height(), err)
			return
		}
		if !follow(c, f, bs) {
			return
		}
	}
	for i, id := range ids {
		t, err := w.n.BM.GetTransactionInfo(id)
		if err != nil {
			c.Fail("transaction %d is not found: %v", i, err)
			return
		}
		r, err := t.GetReceipt()
		if err != nil || r.Status() != module.StatusSuccess {
			c.Fail("transaction %d: %v %v", i, r, err)
			return
		}
	}
	if l.Vals > 0 && l.Count > 0 {
		c.Outcome(len(w.voters()))
	}
}

// follow gives the block to a node which only follows.
func follow(c *mc.Ctx, f *Node, bs []byte) bool {
	bc, err := f.Take(bs, 0)
	if err != nil {
		c.Fail("a node which follows refuses height %d: %v", f.Last().Height()+1, err)
		return false
	}
	if err := f.BM.Finalize(bc); err != nil {
		c.Fail("a node which follows can not finalize height %d: %v", bc.Height(), err)
		return false
	}
	return true
}
