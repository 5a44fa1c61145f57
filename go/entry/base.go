package entry

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/icon-project/goloop/block"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/transaction"
	"vgo/mc"
	. "vgo/node"
)

// bases are transactions which nobody signs: those which proposers make, and those of the first block.
func Bases(c *mc.Ctx, on bool) {
	fresh := func() *world { return OpenWorld(c, on) }
	w := fresh()
	defer func() { w.n.Close() }()
	redo := func(ok bool) {
		if !ok {
			w.n.Close()
			w = fresh()
		}
	}
	datas := []string{"", `null`, `{"issueAmount":"0x64"}`, `{"issueAmount":"0x63"}`, `{"issueAmount":"0x0"}`, `{"issueAmount":"-0x64"}`, `{"issueAmount":null}`, `{}`, `{"x":1}`,
		`{"issueAmount":"0x64","x":1}`, `[]`, `7`, `true`, `""`, `"0x"`, `{"issueAmount":100}`, `{"issueAmount":"100"}`, `{"issueAmount":true}`}
	others := []string{`{"accounts":[{"name":"god","address":"hx0000000000000000000000000000000000000001","balance":"0x0"},{"name":"treasury","address":"hx1000000000000000000000000000000000000000","balance":"0x0"}],"chain":{},"message":"x","nid":"0x1"}`,
		`{"from":"hx0000000000000000000000000000000000000001","to":"hx0000000000000000000000000000000000000002","value":"0x1","fee":"0x2386f26fc10000","timestamp":"1","tx_hash":"00","signature":"AA=="}`, `{}`, `{"version":"0x3"}`, "old"}
	extras := []string{"", "from=null", "from=" + u0, "to=" + u1, "nid=\"0x2\"", "signature=\"AAAA\"", "version=\"0x2\"", "dataType=\"BASE\""}
	for _, d := range datas {
		for _, x := range extras {
			for _, way := range []string{"client", "node"} {
				c.Case("%s: base transaction with data %s %s (rewards %v)", way, d, x, on)
				c.State(way, d, x, on)
				t := baseText(d, w.now+4*win, x)
				var tx any = t
				if way == "node" {
					r, err := parse(t)
					if err != nil {
						continue
					}
					tx = r
				}
				redo(w.client(tx, refuse))
			}
		}
	}
	for _, t := range others {
		for _, way := range []string{"client", "node"} {
			c.Case("%s: %s (rewards %v)", way, t, on)
			x := t
			if t == "old" {
				x = w.oldText(w.now + 4*win)
			}
			var tx any = x
			if way == "node" {
				r, err := parse(x)
				if err != nil {
					continue
				}
				tx = r
			}
			redo(w.client(tx, refuse))
		}
	}
	w.now += 4 * win
	// a block is the list of transactions: b the right base transaction, u one of a user, x the one under test
	for _, lay := range []string{"x", "bx", "xb", "ux", "xu", "bux", "bxu", "uxb", "xx", "bb", "bub", "u", "ub", "b", "bu", "buu", ""} {
		for _, d := range append(datas, others...) {
			if !strings.Contains(lay, "x") && d != "" {
				continue
			}
			for _, x := range extras {
				if x != "" && (lay != "x" && lay != "bx") {
					continue
				}
				if x != "" && strings.Contains(lay, "x") && len(d) > 60 {
					continue
				}
				redo(w.layout(lay, d, x))
			}
		}
	}
}

// block1 gives a block, and looks at all of its results.
func (w *world) block1(bs []byte, txs []module.Transaction, want, n int) bool {
	w.c.Trans(1)
	var o module.BlockCandidate
	var err error
	w.c.Guard(func() { o, err = w.n.Take(bs, 0) })
	if err != nil {
		if want > 0 {
			w.c.Fail("the block is refused: %v", err)
		}
		return n == w.c.Fails()
	}
	if want == refuse {
		w.c.Fail("the block is accepted")
	}
	if err := w.n.BM.Finalize(o); err != nil {
		w.c.Fail("the block can not be finalized: %v", err)
		return false
	}
	_, ok := w.goes(nil)
	w.now += 4 * win
	for _, tx := range txs {
		i, err := w.n.BM.GetTransactionInfo(tx.ID())
		if err != nil {
			w.c.Fail("the transaction is not found: %v", err)
			return false
		}
		r, err := i.GetReceipt()
		if err != nil || r.Status() != module.StatusSuccess {
			w.c.Fail("result %v %v", r, err)
			return false
		}
	}
	return ok && n == w.c.Fails()
}

// baseText is a base transaction.
func baseText(d string, at int64, extra string) string {
	f := fields{"version": `"0x3"`, "timestamp": q(Hex(at)), "dataType": `"base"`, "data": d}
	if extra != "" {
		f[extra[:strings.Index(extra, "=")]] = extra[strings.Index(extra, "=")+1:]
	}
	return f.text("")
}

// oldText is a valid transaction of the old version.
func (w *world) oldText(at int64) string {
	w.seq++
	f := fields{"from": u0, "to": u1, "value": `"0x1"`, "fee": `"0x2386f26fc10000"`, "timestamp": q(fmt.Sprint(at)), "nonce": q(fmt.Sprint(w.seq))}
	zero := q(base64.StdEncoding.EncodeToString(make([]byte, 65)))
	sig := sign(Wallet(100), f.text(zero))
	tx, err := transaction.NewTransactionFromJSON([]byte(f.text(zero)))
	mc.Must(err)
	f["tx_hash"] = q(hex.EncodeToString(tx.ID()))
	return f.text(sig)
}

// layout gives a block with transactions: b the right base transaction, u one of a user, x the one under test, which is a base transaction with data d
// and something else of it changed, or the transaction d.
func (w *world) layout(lay, d, x string) bool {
	c := w.c
	user := func(at int64) module.Transaction {
		w.seq++
		return Tx(0, mc.J{"to": Wallet(101).Address().String(), "value": "0x1", "timestamp": Hex(at), "nonce": Hex(int64(w.seq)), "stepLimit": "0x100000"})
	}
	text := d
	if d == "old" {
		text = w.oldText(w.now)
		d = text
	}
	other := strings.HasPrefix(d, "{") && (len(d) > 60 || d == `{"version":"0x3"}`)
	if !other {
		text = baseText(d, w.now, x)
	}
	c.Case("block %q with %s (rewards %v)", lay, text, w.on)
	c.State(lay, d, x, w.on)
	var test module.Transaction
	var perr error
	if strings.Contains(lay, "x") {
		c.Guard(func() { test, perr = parse(text) })
		if perr != nil || test == nil {
			return true
		}
	}
	// what is right
	right := d == `{"issueAmount":"0x64"}` && (x == "" || x == "from=null" || x == "to="+u1 || x[:3] == "nid" || x[:3] == "sig")
	n := c.Fails()
	bc, err := w.propose(w.now)
	if err != nil {
		c.Fail("no block can be proposed: %v", err)
		return false
	}
	var bt module.Transaction
	if l := list(bc.NormalTransactions()); w.on {
		if len(l) != 1 {
			c.Fail("%d transactions in an empty block", len(l))
			return false
		}
		bt = l[0]
	} else {
		if len(l) != 0 {
			c.Fail("%d transactions in an empty block", len(l))
			return false
		}
		bt, err = parse(baseText(`{"issueAmount":"0x64"}`, w.now, ""))
		mc.Must(err)
	}
	var txs []module.Transaction
	nb, bad, open := 0, false, false
	for i, k := range lay {
		switch k {
		case 'b':
			txs = append(txs, bt)
			nb++
			bad = bad || i > 0
		case 'x':
			txs = append(txs, test)
			nb++
			loose := d == `{"issueAmount":100}` || d == `{"issueAmount":"100"}` // other Ways to write it
			bad = bad || i > 0 || !right && !loose
			open = open || loose
		case 'u':
			txs = append(txs, user(w.now))
		}
	}
	want := works
	if bad || w.on && nb != 1 || !w.on && nb != 0 {
		want = refuse
	} else if open {
		want = free
	}
	bs := With(Bytes(bc), func(h *block.V2HeaderFormat, b *block.V2BodyFormat) { w.n.SetTxs(h, b, txs...) })
	return w.block1(bs, txs, want, n)
}

// Layout runs one.
func Layout(on bool, lay, d, x string) {
	w := OpenWorld(mc.Demo(), on)
	w.layout(lay, d, x)
	w.n.Close()
}
