package node

import (
	"fmt"
	"sort"
	"time"

	"github.com/icon-project/goloop/block"
	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/module"
	"vgo/mc"
)

// Unit is half of a millisecond, in microseconds; the times of a history count in it.
const Unit = 500
const origin = 3_400_000_000_000

// T is a transaction: its time, and a number among those of the same time.
type T struct {
	At int64
	N  int
}

func (t T) String() string { return fmt.Sprintf("%d.%d", t.At, t.N) }

// Loc is where a transaction is.
type Loc struct {
	H int64
	I int
	// Th is the window of that block
	Th int64
}

// Hist is a node and what it should know.
type Hist struct {
	Ctx  *mc.Ctx
	N    *Node
	DB   *mc.DB
	Gate *Gate
	Gov  bool  // the threshold can be changed
	Th   int64 // half of the width of the window
	Now  int64 // time of the last block
	H    int64
	Done map[T]Loc
	Max  int

	from int64 // last block before the last restart
	made map[string][]byte
	gen  mc.J
}

var txs = map[T]module.Transaction{}

// Us is a time in microseconds.
func Us(u int64) int64 { return (origin + u) * Unit }

// Of gives the transaction.
func (h *Hist) Of(t T) module.Transaction {
	wmu.Lock()
	tx := txs[t]
	wmu.Unlock()
	if tx == nil {
		tx = Tx(t.N, mc.J{"to": Wallet(50).Address().String(), "value": "0x0", "timestamp": Hex(Us(t.At)), "nonce": Hex(int64(t.N))})
		wmu.Lock()
		txs[t] = tx
		wmu.Unlock()
	}
	return tx
}

// NewHist starts a chain whose window is of th units to both sides, th even, and whose last block is at time 0.
func NewHist(ctx *mc.Ctx, th int64, gov bool) *Hist {
	h := &Hist{Ctx: ctx, DB: mc.NewDB(), Th: th, Gov: gov, Done: map[T]Loc{}}
	acc := []any{mc.J{"name": "god", "address": mc.User(1).String(), "balance": "0x100"},
		mc.J{"name": "treasury", "address": "hx1000000000000000000000000000000000000000", "balance": "0x0"}}
	if gov {
		acc = append(acc, mc.J{"name": "governance", "address": Wallet(190).Address().String(), "balance": "0x0"})
	}
	h.gen = Genesis(1, mc.J{"timestampThreshold": Hex(th / 2)}, acc...)
	mc.Must(h.open(h.DB))
	for _, at := range []int64{-origin, 0} {
		h.Now = at
		bc, err := h.Offer(h.N.Last(), at)
		mc.Must(err)
		mc.Must(h.N.BM.Finalize(bc))
	}
	h.H = 2
	return h
}

func (h *Hist) open(d *mc.DB) error {
	h.DB = d
	h.Gate = NewGate(d, db.TransactionLocatorByHash)
	n, err := Open(h.Gate, nil, h.gen, 0)
	if err != nil {
		return err
	}
	if h.Max > 0 {
		n.MaxTx = h.Max
	}
	h.N = n
	return nil
}

func (h *Hist) Close() {
	h.Gate.Shut(false)
	h.N.Close()
}

// Restart closes the node and opens it again on d, or on what it stored.
func (h *Hist) Restart(d *mc.DB) bool {
	if d == nil {
		h.Gate.Shut(false)
		h.N.Close()
		d = h.DB
	} else {
		h.Close()
	}
	if err := h.open(d); err != nil {
		h.Ctx.Fail("the node does not start again: %v", err)
		mc.Must(h.open(mc.NewDB()))
		return false
	}
	h.from = h.H
	return true
}

// Bytes makes a block on the parent.
func (h *Hist) Bytes(p module.Block, at int64, l ...module.Transaction) ([]byte, error) {
	k := fmt.Sprintf("%x %d", p.ID(), at)
	bs := h.made[k]
	if bs == nil {
		bc, err := h.N.Propose(p.ID(), Votes(p, 0, Us(at), 0))
		if err != nil {
			return nil, err
		}
		bs = Bytes(bc)
		bc.Dispose()
		h.made = map[string][]byte{k: bs}
	}
	return With(bs, func(hf *block.V2HeaderFormat, d *block.V2BodyFormat) { h.N.SetTxs(hf, d, l...) }), nil
}

// Offer lets the node take over a block with these transactions.
func (h *Hist) Offer(p module.Block, at int64, l ...module.Transaction) (module.BlockCandidate, error) {
	bs, err := h.Bytes(p, at, l...)
	mc.Must(err)
	return h.N.Take(bs, 0)
}

func (h *Hist) in(t T, at int64) bool { return t.At > at-h.Th && t.At <= at+h.Th }

// Valid tells whether a block at this time may have the transactions; also are those of blocks before it which are not finalized.
func (h *Hist) Valid(at int64, also []T, l ...T) bool {
	seen := map[T]bool{}
	for _, t := range also {
		seen[t] = true
	}
	for _, t := range l {
		if _, ok := h.Done[t]; ok || seen[t] || !h.in(t, at) {
			return false
		}
		seen[t] = true
	}
	return true
}

func (h *Hist) List(l []T) []module.Transaction {
	r := []module.Transaction{}
	for _, t := range l {
		r = append(r, h.Of(t))
	}
	return r
}

// Ask offers a block with these transactions on the parent and tells whether it should be and is taken over.
func (h *Hist) Ask(p module.Block, at int64, also []T, l ...T) module.BlockCandidate {
	want := h.Valid(at, also, l...)
	bc, err := h.Offer(p, at, h.List(l)...)
	h.Ctx.Trans(1)
	if want != (err == nil) {
		note := ""
		for _, t := range l {
			if d, ok := h.Done[t]; ok && d.H <= h.from && d.Th > h.Th && err == nil {
				note = " [repeats a transaction of a block of before the restart, whose window was wider]"
			}
		}
		h.Ctx.Fail("block %d at %d with %v (window %d, in blocks before %v and %v): accepted %v (%v) instead of %v%s", p.Height()+1, at, l, h.Th, h.Done, also, err == nil, err, want, note)
	}
	return bc
}

// Add finalizes a block with these transactions, which should be taken over.
func (h *Hist) Add(at int64, l ...T) bool {
	bc := h.Ask(h.N.Last(), at, nil, l...)
	if bc == nil {
		return false
	}
	h.Final(bc, at, l...)
	return true
}

func (h *Hist) Final(bc module.BlockCandidate, at int64, l ...T) {
	if err := h.N.BM.Finalize(bc); err != nil {
		h.Ctx.Fail("block %d is not finalized: %v", bc.Height(), err)
	}
	h.H, h.Now = h.H+1, at
	for i, t := range l {
		h.Done[t] = Loc{h.H, i, h.Th}
	}
}

// SetTh lets the governance change the width of the window, in a block at this time.
func (h *Hist) SetTh(at, th int64) {
	tx := Tx(90, mc.J{"to": mc.System.String(), "value": "0x0", "timestamp": Hex(Us(at)), "dataType": "call",
		"data": mc.J{"method": "setTimestampThreshold", "params": mc.J{"threshold": Hex(th / 2)}}})
	bc, err := h.Offer(h.N.Last(), at, tx)
	mc.Must(err)
	mc.Must(h.N.BM.Finalize(bc))
	h.H, h.Now, h.Th = h.H+1, at, th
}

// Olds gives the executed transactions in order.
func (h *Hist) Olds() (l []T) {
	for t := range h.Done {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].At < l[j].At || l[i].At == l[j].At && l[i].N < l[j].N })
	return
}

// Probe asks, for each of these gaps, for blocks with each executed transaction and with new ones around the borders of the window.
func (h *Hist) Probe(gaps []int64) {
	p := h.N.Last()
	for _, g := range gaps {
		at := h.Now + g
		l := h.Olds()
		for _, d := range []int64{-h.Th, 1 - h.Th, h.Th, h.Th + 1} {
			l = append(l, T{at + d, 9})
		}
		for _, t := range l {
			if bc := h.Ask(p, at, nil, t); bc != nil {
				bc.Dispose()
			}
		}
	}
}

// Kids asks for the executed transactions again, on a block which is not finalized.
func (h *Hist) Kids(gaps []int64) {
	for _, g := range gaps {
		bc := h.Ask(h.N.Last(), h.Now+g, nil)
		if bc == nil {
			continue
		}
		for _, t := range h.Olds() {
			for _, at := range []int64{t.At - h.Th, t.At} {
				if at > h.Now+g {
					if kid := h.Ask(bc, at, nil, t); kid != nil {
						kid.Dispose()
					}
				}
			}
		}
		bc.Dispose()
	}
}

// Find checks that the executed transactions are found where they are, and no others.
func (h *Hist) Find(lose ...T) {
	for t, w := range h.Done {
		id := h.Of(t).ID()
		ti, err := h.N.BM.GetTransactionInfo(id)
		if err != nil {
			h.Ctx.Fail("transaction %v of block %d is not found: %v", t, w.H, err)
			continue
		}
		h.Ctx.Expect(fmt.Sprint(ti.Block().Height(), ti.Index(), ti.Group()), fmt.Sprint(w.H, w.I, module.TransactionGroupNormal), "place of %v", t)
		tx, err := ti.Transaction()
		mc.Must(err)
		h.Ctx.Expect(fmt.Sprintf("%x", tx.ID()), fmt.Sprintf("%x", id), "transaction %v", t)
		_, err = ti.GetReceipt()
		h.Ctx.Expect(err == nil, w.H < h.H, "receipt of %v of block %d is there in block %d (%v)", t, w.H, h.H, err)
	}
	for _, t := range lose {
		if _, ok := h.Done[t]; !ok {
			if _, err := h.N.BM.GetTransactionInfo(h.Of(t).ID()); err == nil {
				h.Ctx.Fail("transaction %v is found, but is in no block", t)
			}
		}
	}
}

// Crashes gives the databases which a crash while f writes can leave: any number of the writes of f with any
// number of those which are held back by the gate, once what comes before them is written.
func (h *Hist) Crashes(id []byte, f func(), l ...T) []*mc.DB {
	base := h.DB.Copy()
	n0 := h.DB.Logged()
	h.Gate.Shut(true)
	f()
	n1 := h.DB.Logged()
	h.Gate.Shut(false)
	h.Quiet(l...)
	n2 := h.DB.Logged()
	main, late := h.DB.Part(n0, n1), h.DB.Part(n1, n2)
	from := len(main)
	for i, w := range main {
		if len(w[0]) >= len(id) && w[0][len(w[0])-len(id):] == string(id) {
			from = i
			break
		}
	}
	var r []*mc.DB
	for i := 0; i <= len(main); i++ {
		for j := 0; j <= len(late); j++ {
			if j > 0 && i < from {
				break
			}
			d := base.Copy()
			d.Apply(main[:i])
			d.Apply(late[:j])
			r = append(r, d)
		}
	}
	return r
}

// Quiet waits until the locators are stored.
func (h *Hist) Quiet(l ...T) {
	for _, t := range l {
		for i := 0; !h.DB.Has(db.TransactionLocatorByHash, h.Of(t).ID()); i++ {
			if i > 20000 {
				h.Ctx.Fail("the place of transaction %v is not stored", t)
				return
			}
			time.Sleep(100 * time.Microsecond)
		}
	}
}
