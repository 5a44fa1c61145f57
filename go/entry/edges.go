package entry

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/icon-project/goloop/block"
	"github.com/icon-project/goloop/module"
	"vgo/mc"
	. "vgo/node"
)

// edges are limits which are just kept and just not.
func Edges(c *mc.Ctx, on bool) {
	fresh := func() *world { return OpenWorld(c, on) }
	w := fresh()
	defer func() { w.n.Close() }()
	var bigs []string
	for _, n := range []int{512*1024 - 1, 512 * 1024, 512*1024 + 1} {
		bigs = append(bigs, q(strings.Repeat("a", n-2)))
	}
	bigs = append(bigs, `[`+strings.Repeat(" ", 1000)+q(strings.Repeat("a", 512*1024-4))+` ]`, `[ `+q(strings.Repeat("a", 512*1024-3))+`]`)
	for i, b := range bigs {
		for _, way := range Ways {
			fam := Families()[2]
			fam.name = fmt.Sprintf("message of size %d", i)
			fam.f["data"], fam.f["stepLimit"] = b, `"0x1000000"`
			if i == 2 || i == 4 {
				fam.want = refuse
			}
			w = w.run(fam, nil, way, fresh)
		}
	}
	for _, fam := range Families() {
		if fam.name == "patch" {
			continue
		}
		steps := int64(100)
		if d := fam.f["data"]; d != "" {
			var v any
			mc.Must(json.Unmarshal([]byte(d), &v))
			steps += 2 * int64(len(d))
		}
		for _, way := range Ways {
			for d := int64(-1); d <= 1; d++ {
				f := fam
				f.want = taken
				if d < 0 {
					f.want = refuse
				}
				f.name = fmt.Sprintf("%s with %d steps more than needed", fam.name, d)
				f.f = fields{}
				for k, v := range fam.f {
					f.f[k] = v
				}
				f.f["stepLimit"] = q(Hex(steps + d))
				w = w.run(f, nil, way, fresh)
			}
			if fam.name == "deploy" || fam.name == "system call" {
				continue
			}
			for d := int64(-1); d <= 1; d++ {
				f := fam
				f.want = taken
				if d > 0 {
					f.want = refuse
				}
				f.name = fmt.Sprintf("%s of %d more than there is", fam.name, d)
				f.f = fields{}
				for k, v := range fam.f {
					f.f[k] = v
				}
				bal, err := w.n.SM.GetBalance(w.n.Last().Result(), Wallet(100).Address())
				mc.Must(err)
				v := new(big.Int).Sub(bal, big.NewInt(0x100000-d))
				f.f["value"] = q("0x" + v.Text(16))
				w = w.run(f, nil, way, fresh)
				if d <= 0 {
					w.n.Close()
					w = fresh()
				}
			}
		}
	}
}

type Pay struct {
	From, To int
	V        int64
}

// sums are blocks of several transactions of two who have little.
func Sums(c *mc.Ctx, first int, n int) {
	var alls []Pay
	for from := 0; from < 2; from++ {
		for to := 0; to < 2; to++ {
			for _, v := range []int64{0, 5, 105, 106} {
				alls = append(alls, Pay{from, to, v})
			}
		}
	}
	g := poor()
	run := func(l []Pay) {
		for _, way := range []string{"client", "proposer"} {
			c.Case("%s: %v", way, l)
			c.State(way, l)
			w := OpenOn(c, g)
			w.now += 4 * win
			Sum(c, w, l, way)
			w.n.Close()
		}
	}
	var walk func(l []Pay)
	walk = func(l []Pay) {
		if len(l) == n {
			run(append([]Pay(nil), l...))
			return
		}
		for i, p := range alls {
			if len(l) > 0 || i == first {
				walk(append(l, p))
			}
		}
	}
	walk(nil)
}

func Sum(c *mc.Ctx, w *world, l []Pay, way string) {
	bal := []int64{205, 205}
	var txs, want []module.Transaction
	all := true
	for i, p := range l {
		tx := Tx(p.From, mc.J{"to": Wallet(100 + p.To).Address().String(), "value": Hex(p.V), "timestamp": Hex(w.now), "nonce": Hex(int64(i)), "stepLimit": "0x64"})
		txs = append(txs, tx)
		if bal[p.From] < p.V+100 {
			all = false
			continue
		}
		bal[p.From] -= p.V + 100
		bal[p.To] += p.V
		want = append(want, tx)
	}
	c.Trans(1)
	if way == "client" {
		for _, tx := range txs {
			if _, err := w.n.SM.SendTransaction(nil, 0, tx); err != nil {
				c.Fail("refused: %v", err)
			}
		}
	}
	bc, err := w.propose(w.now)
	mc.Must(err)
	if way == "client" {
		c.Expect(len(list(bc.NormalTransactions())), len(want), "transactions in the block")
		for i, tx := range list(bc.NormalTransactions()) {
			if i < len(want) {
				c.Expect(mc.Hex(int64(i))+fmt.Sprintf("%x", tx.ID()), mc.Hex(int64(i))+fmt.Sprintf("%x", want[i].ID()), "a transaction of the block")
			}
		}
		if _, err := w.n.Take(Bytes(bc), 0); err != nil {
			c.Fail("the proposed block is refused: %v", err)
			return
		}
		if err := w.n.BM.Finalize(bc); err != nil {
			c.Fail("not finalized: %v", err)
			return
		}
	} else {
		o, err := w.n.Take(With(Bytes(bc), func(h *block.V2HeaderFormat, b *block.V2BodyFormat) { w.n.SetTxs(h, b, txs...) }), 0)
		c.Expect(err == nil, all, "the block is accepted: %v", err)
		if err != nil {
			return
		}
		if err := w.n.BM.Finalize(o); err != nil {
			c.Fail("not finalized: %v", err)
			return
		}
		if !all {
			return
		}
	}
	c.Outcome(len(want))
	if _, ok := w.goes(nil); !ok {
		return
	}
	for k := range bal {
		b, err := w.n.SM.GetBalance(w.n.Last().Result(), Wallet(100+k).Address())
		mc.Must(err)
		c.Expect(b, bal[k], "balance of %d", k)
	}
}

const have = 205

// poor are two users with enough for two transactions.
func poor() mc.J {
	return Genesis(1, mc.J{"timestampThreshold": Hex(win / ms), "fee": mc.J{"stepPrice": "0x1", "stepLimit": mc.J{"invoke": "0x9502f900", "query": "0x2faf080"}, "stepCosts": mc.J{"default": "0x64"}}},
		mc.J{"name": "god", "address": mc.User(1).String(), "balance": rich},
		mc.J{"name": "treasury", "address": "hx1000000000000000000000000000000000000000", "balance": "0x0"},
		mc.J{"name": "a", "address": Wallet(100).Address().String(), "balance": Hex(have)}, mc.J{"name": "b", "address": Wallet(101).Address().String(), "balance": Hex(have)})
}

// Pays runs one.
func Pays(way string, l ...Pay) {
	c := mc.Demo()
	w := OpenOn(c, poor())
	w.now += 4 * win
	Sum(c, w, l, way)
	w.n.Close()
}
