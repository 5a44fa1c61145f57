// Package take gives blocks of all kinds to a node and looks which it takes.
package take

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/bits"
	"sort"

	"github.com/icon-project/goloop/block"
	"github.com/icon-project/goloop/common/codec"
	"github.com/icon-project/goloop/consensus"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/scoreapi"
	"vgo/mc"
	. "vgo/node"
)

const (
	sec   = int64(1_000_000)
	start = 1_700_000_000 * sec
)

func engine() *mc.EE {
	return &mc.EE{N: 1,
		API: func(string) *scoreapi.Info {
			return scoreapi.NewInfo([]*scoreapi.Method{
				{Type: scoreapi.Function, Name: "<init>"},
				{Type: scoreapi.Function, Name: "run", Flags: scoreapi.FlagExternal | scoreapi.FlagPayable},
				{Type: scoreapi.Event, Name: "Ran"},
			})
		},
		Code: func(x *mc.Exec) (any, error) {
			if x.Method == "run" {
				x.Event([][]byte{[]byte("Ran()")}, nil)
			}
			return nil, nil
		},
	}
}

func genesis(vals int) mc.J {
	return Genesis(vals, mc.J{},
		mc.J{"name": "god", "address": mc.User(1).String(), "balance": "0x3635c9adc5dea00000"},
		mc.J{"name": "treasury", "address": "hx1000000000000000000000000000000000000000", "balance": "0x0"},
		mc.J{"name": "u", "address": Wallet(100).Address().String(), "balance": "0x3635c9adc5dea00000"},
		mc.J{"name": "score", "address": mc.Score(1).String(), "balance": "0x0",
			"score": mc.J{"owner": mc.User(1).String(), "contentType": "application/java", "content": "0x0102"}})
}

// World is a node which makes blocks and one which takes them.
type World struct {
	c    *mc.Ctx
	a, b *Node
	vals int
	now  int64
	seq  int64
}

func all(n int) (r []int) {
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return
}

func Open2(c *mc.Ctx, vals int, g mc.J) *World {
	w := &World{c: c, vals: vals}
	var err error
	w.a, err = Open(mc.NewDB(), engine(), g, 0)
	mc.Must(err)
	w.b, err = Open(mc.NewDB(), engine(), g, 9)
	mc.Must(err)
	w.step()
	w.now = start
	w.send(true)
	w.step()
	w.now += sec
	return w
}

func (w *World) Close() { w.a.Close(); w.b.Close() }

// send sends a transfer, or a call which has an event.
func (w *World) send(call bool) module.Transaction {
	w.seq++
	js := mc.J{"to": mc.Score(1).String(), "timestamp": Hex(start), "nonce": Hex(w.seq), "dataType": "call", "data": mc.J{"method": "run"}}
	if !call {
		js = mc.J{"to": mc.User(1).String(), "timestamp": Hex(start), "nonce": Hex(w.seq), "value": "0x1"}
	}
	tx := Tx(0, js)
	_, err := w.a.SM.SendTransaction(nil, 0, tx)
	mc.Must(err)
	return tx
}

func (w *World) votes() module.CommitVoteSet {
	return Votes(w.a.Last(), 0, w.now, all(w.vals)...)
}

// step makes a block.
func (w *World) step() {
	bc, err := w.a.Propose(w.a.Last().ID(), w.votes())
	mc.Must(err)
	mc.Must(w.a.BM.Finalize(bc))
	o, err := w.b.Take(Bytes(bc), 0)
	mc.Must(err)
	mc.Must(w.b.BM.Finalize(o))
}

// idOf is the ID of a block by its bytes.
func idOf(bs []byte) []byte {
	var h block.V2HeaderFormat
	if err := codec.BC.Unmarshal(bytes.NewReader(bs), &h); err != nil {
		return nil
	}
	return mc.Sha3(codec.BC.MustMarshalToBytes(&h))
}

const (
	no    = -1
	maybe = 0
	yes   = 1
)

// give gives a block and says whether it was taken.
func (w *World) give(bs []byte, want int, id []byte) bool {
	w.c.Trans(1)
	var bc module.BlockCandidate
	var err error
	w.c.Guard(func() { bc, err = w.b.Take(bs, 0) })
	if err == nil && bc == nil {
		return false
	}
	w.c.Outcome(err == nil)
	if err != nil {
		if want == yes {
			w.c.Fail("refused: %v", err)
		}
		return false
	}
	defer bc.Dispose()
	if want == no {
		w.c.Fail("accepted")
	}
	if x := idOf(Bytes(bc)); !bytes.Equal(bc.ID(), x) {
		w.c.Fail("accepted with the ID %x, which is %x when it is written", bc.ID(), x)
	}
	if id != nil && !bytes.Equal(bc.ID(), id) {
		w.c.Fail("accepted with the ID %x instead of %x", bc.ID(), id)
	}
	return true
}

// Fields changes all fields of a block.
func Fields(c *mc.Ctx) {
	w := Open2(c, 4, genesis(4))
	defer w.Close()
	t1, t2 := w.send(false), w.send(true)
	bc, err := w.a.Propose(w.a.Last().ID(), w.votes())
	mc.Must(err)
	right := Bytes(bc)
	gs, err := w.a.BM.GetBlockByHeight(0)
	mc.Must(err)
	p2, err := w.a.BM.GetBlockByHeight(1)
	mc.Must(err)
	prev := w.a.Last()
	junk := bytes.Repeat([]byte{0xab}, 32)
	type H = block.V2HeaderFormat
	type B = block.V2BodyFormat
	check := func(name string, want int, f func(h *H, d *B)) {
		c.Case("%s", name)
		c.State(name)
		bs := With(right, f)
		id := bc.ID()
		if want == maybe {
			id = nil
		} else if !bytes.Equal(bs, right) {
			id = idOf(bs)
		}
		w.give(bs, want, id)
	}
	check("as it is", yes, func(h *H, d *B) {})
	for _, d := range []int64{-3, -2, -1, 1, 2, 1 << 40, -1 << 62} {
		check(fmt.Sprintf("height %+d", d), no, func(h *H, _ *B) { h.Height += d })
		check(fmt.Sprintf("time %+d", d), no, func(h *H, _ *B) { h.Timestamp += d })
	}
	check("time of the parent", no, func(h *H, _ *B) { h.Timestamp = prev.Timestamp() })
	check("no time", no, func(h *H, _ *B) { h.Timestamp = 0 })
	for _, v := range []int{-1, 0, 1, 3, 4, 258} {
		check(fmt.Sprintf("version %d", v), no, func(h *H, _ *B) { h.Version = v })
	}
	for i, p := range [][]byte{nil, {}, {0}, junk, Wallet(9).Address().Bytes(), mc.Score(1).Bytes(), Wallet(1).Address().Bytes()[1:], append([]byte{2}, Wallet(1).Address().Bytes()[1:]...)} {
		check(fmt.Sprintf("proposer %d", i), maybe, func(h *H, _ *B) { h.Proposer = p })
	}
	ids := [][]byte{nil, {}, junk, gs.ID(), p2.ID(), bc.ID(), prev.ID()[1:], append([]byte{0}, prev.ID()...), prev.Result(), prev.NextValidatorsHash(), prev.NormalTransactions().Hash(), gs.Result(), gs.NormalTransactions().Hash(),
		p2.Result(), prev.Votes().Hash(), prev.Votes().Bytes(), bc.NormalTransactions().Hash(), bc.Votes().Hash()}
	bytesOf := map[string]func(h *H) *[]byte{
		"parent":       func(h *H) *[]byte { return &h.PrevID },
		"votes hash":   func(h *H) *[]byte { return &h.VotesHash },
		"validators":   func(h *H) *[]byte { return &h.NextValidatorsHash },
		"patches":      func(h *H) *[]byte { return &h.PatchTransactionsHash },
		"transactions": func(h *H) *[]byte { return &h.NormalTransactionsHash },
		"bloom":        func(h *H) *[]byte { return &h.LogsBloom },
		"result":       func(h *H) *[]byte { return &h.Result },
		"filter":       func(h *H) *[]byte { return &h.NSFilter },
	}
	var names []string
	for k := range bytesOf {
		names = append(names, k)
	}
	sort.Strings(names)
	norm := func(b []byte) []byte {
		if len(b) == 0 {
			return nil
		}
		return b
	}
	for _, k := range names {
		f := bytesOf[k]
		vals := append([][]byte(nil), ids...)
		var orig []byte
		With(right, func(h *H, _ *B) { orig = append([]byte(nil), *f(h)...) })
		for i := range orig {
			x := append([]byte(nil), orig...)
			x[i] ^= 1
			vals = append(vals, x)
		}
		for i, v := range vals {
			want := no
			if bytes.Equal(norm(v), norm(orig)) || k == "bloom" {
				want = maybe // there may be other ways to write the same bloom
			}
			c.Case("%s %d (%x)", k, i, v)
			c.State(k, i)
			bs := With(right, func(h *H, _ *B) { *f(h) = v })
			w.give(bs, want, bc.ID())
		}
	}
	b := func(tx module.Transaction) []byte { return tx.Bytes() }
	body := map[string]func(d *B){
		"one transaction less":        func(d *B) { d.NormalTransactions = d.NormalTransactions[:1] },
		"no transactions":             func(d *B) { d.NormalTransactions = nil },
		"one transaction more":        func(d *B) { d.NormalTransactions = append(d.NormalTransactions, b(t1)) },
		"transactions swapped":        func(d *B) { l := d.NormalTransactions; l[0], l[1] = l[1], l[0] },
		"transactions doubled":        func(d *B) { l := d.NormalTransactions; l[1] = l[0] },
		"transactions as patches":     func(d *B) { d.PatchTransactions, d.NormalTransactions = d.NormalTransactions, nil },
		"a patch":                     func(d *B) { d.PatchTransactions = [][]byte{b(t2)} },
		"no votes":                    func(d *B) { d.Votes = nil },
		"the votes of the parent":     func(d *B) { d.Votes = prev.Votes().Bytes() },
		"junk votes":                  func(d *B) { d.Votes = junk },
		"junk digest":                 func(d *B) { d.BTPDigest = junk },
		"a digest of nothing":         func(d *B) { d.BTPDigest = []byte{0xc0} },
		"a digest of one":             func(d *B) { d.BTPDigest = []byte{0xc1, 0xc0} },
		"a transaction of other form": func(d *B) { d.NormalTransactions[0] = []byte(`{}`) },
		"an empty transaction":        func(d *B) { d.NormalTransactions[0] = nil },
	}
	names = nil
	for k := range body {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		f := body[k]
		check(k, no, func(_ *H, d *B) { f(d) })
	}
	var l []module.Transaction
	for i := bc.NormalTransactions().Iterator(); i.Has(); i.Next() {
		tx, _, err := i.Get()
		mc.Must(err)
		l = append(l, tx)
	}
	// other lists, with their hash, make other blocks
	var none []module.Transaction
	for i, o := range [][]module.Transaction{none, {l[0]}, {l[1]}, {l[0], l[1]}, {l[1], l[0]}, {l[0], l[0]}, {l[1], l[0], l[1]}} {
		want := yes
		if i > 4 {
			want = no
		}
		check(fmt.Sprintf("list %d", i), want, func(h *H, d *B) { w.b.SetTxs(h, d, o...) })
	}
	if bc.LogsBloom().LogBytes() == nil || len(bc.LogsBloom().LogBytes()) == 0 {
		c.Fail("harness: the bloom is empty")
	}
}

// Bits changes each bit of a block, and cuts it at each byte.
func Bits(c *mc.Ctx) {
	w := Open2(c, 4, genesis(4))
	defer w.Close()
	w.send(false)
	bc, err := w.a.Propose(w.a.Last().ID(), w.votes())
	mc.Must(err)
	right := Bytes(bc)
	part := func(b module.Block) string {
		return fmt.Sprintf("%x", With(Bytes(b), func(h *block.V2HeaderFormat, _ *block.V2BodyFormat) { h.Proposer = nil }))
	}
	same := part(bc)
	// what is taken is the same block in all but its proposer
	try := func(bs []byte) {
		c.Trans(1)
		c.Guard(func() {
			o, err := w.b.Take(bs, 0)
			c.Outcome(err == nil)
			if err != nil {
				return
			}
			if part(o) != same {
				c.Fail("another block is accepted")
			}
			o.Dispose()
		})
	}
	for i := range right {
		c.Case("cut at %d", i)
		w.give(right[:i], no, nil)
		for b := 0; b < 8; b++ {
			c.Case("byte %d, bit %d", i, b)
			x := append([]byte(nil), right...)
			x[i] ^= 1 << b
			try(x)
		}
		for _, v := range []byte{0, 0x7f, 0x80, 0xb7, 0xb8, 0xbf, 0xc0, 0xf7, 0xf8, 0xff} {
			c.Case("byte %d is %#x", i, v)
			x := append([]byte(nil), right...)
			x[i] = v
			try(x)
		}
	}
	c.State(len(right))
	w.give(right, yes, bc.ID())
}

type pv struct {
	who         int
	height      int64
	round       int32
	kind        consensus.VoteType
	id          []byte
	parts, when int64
}

// list makes the votes as they are in a block.
type item struct {
	Timestamp int64
	Signature []byte
}
type voteList struct {
	Round int32
	Parts *consensus.PartSetIDAndAppData
	Items []item
}

func parts(n int64) *consensus.PartSetID {
	return &consensus.PartSetID{Count: uint16(n), Hash: bytes.Repeat([]byte{7}, 32)}
}

func sig(v pv) item {
	m := consensus.NewVoteMessage(Wallet(v.who), v.kind, v.height, v.round, v.id, parts(v.parts), v.when, nil, nil, 0)
	s, err := m.Signature.Signature.SerializeRSV()
	mc.Must(err)
	return item{v.when, s}
}

func median(l []int64) int64 {
	if len(l) == 0 {
		return 0
	}
	s := append([]int64(nil), l...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	if len(s)%2 == 1 {
		return s[len(s)/2]
	}
	return (s[len(s)/2-1] + s[len(s)/2]) / 2
}

// vote gives the block of the time with these votes.
func (w *World) vote(right []byte, round int32, at int64, l []item, want int) bool {
	bs := With(right, func(h *block.V2HeaderFormat, d *block.V2BodyFormat) {
		d.Votes = codec.BC.MustMarshalToBytes(&voteList{round, &consensus.PartSetIDAndAppData{CountWord: 1, Hash: parts(1).Hash}, l})
		h.VotesHash = mc.Sha3(d.Votes)
		h.Timestamp = at
	})
	return w.give(bs, want, nil)
}

// VotesOf gives blocks with all kinds of votes of a number of validators.
func VotesOf(c *mc.Ctx, vals int) {
	w := Open2(c, vals, genesis(vals))
	defer w.Close()
	prev := w.a.Last()
	bc, err := w.a.Propose(prev.ID(), w.votes())
	mc.Must(err)
	right := Bytes(bc)
	p2, err := w.a.BM.GetBlockByHeight(prev.Height() - 1)
	mc.Must(err)
	good := func(i int) pv { return pv{i, prev.Height(), 0, consensus.VoteTypePrecommit, prev.ID(), 1, w.now} }
	// all sets
	for s := uint(0); s < 1<<vals; s++ {
		for _, round := range []int32{0, 1, 5} {
			var l []item
			for i := 0; i < vals; i++ {
				if s>>i&1 == 1 {
					v := good(i)
					v.round = round
					l = append(l, sig(v))
				}
			}
			c.Case("%d validators, those who vote %b in round %d", vals, s, round)
			c.State(vals, s, round)
			want := no
			if 3*bits.OnesCount(s) > 2*vals {
				want = yes
			}
			w.vote(right, round, w.now, l, want)
			if round > 0 {
				c.Case("%d validators, those who vote %b in round %d, but the list says another", vals, s, round)
				w.vote(right, round-1, w.now, l, no)
			}
		}
	}
	bad := map[string]func(v *pv){
		"for the block before":   func(v *pv) { v.id = p2.ID() },
		"for the block itself":   func(v *pv) { v.id = bc.ID() },
		"for no block":           func(v *pv) { v.id = nil },
		"of the height before":   func(v *pv) { v.height-- },
		"of the height after":    func(v *pv) { v.height++ },
		"of another round":       func(v *pv) { v.round++ },
		"a prevote":              func(v *pv) { v.kind = consensus.VoteTypePrevote },
		"of other parts":         func(v *pv) { v.parts++ },
		"of one who has no vote": func(v *pv) { v.who = 50 },
		"of the next validator":  func(v *pv) { v.who = vals },
		"of one who has a vote":  func(v *pv) { v.who = (v.who + 1) % vals },
	}
	var names []string
	for k := range bad {
		names = append(names, k)
	}
	sort.Strings(names)
	need := 2*vals/3 + 1
	for _, n := range []int{need, vals} {
		var l []item
		for i := 0; i < n; i++ {
			l = append(l, sig(good(i)))
		}
		for at := 0; at <= n; at++ {
			for _, k := range names {
				v := good(at % vals)
				bad[k](&v)
				x := sig(v)
				want := no
				y := append([]item(nil), l...)
				if at < n {
					y[at] = x
				} else if n < vals {
					// one more vote: the list may be fine
					if k == "of one who has a vote" && v.who >= n {
						want = yes
					}
					y = append(y, x)
				} else {
					y = append(y, x)
				}
				if k == "of one who has a vote" && at < n && v.who >= n {
					want = yes
				}
				if k == "of one who has a vote" && vals == 1 && at < n {
					want = yes
				}
				c.Case("%d validators, %d votes, the one at %d is %s", vals, n, at, k)
				c.State(vals, n, at, k)
				w.vote(right, 0, w.now, y, want)
			}
			if at < n {
				for b := 0; b < 65; b++ {
					c.Case("%d validators, %d votes, signature %d is changed at %d", vals, n, at, b)
					y := append([]item(nil), l...)
					y[at].Signature = append([]byte(nil), l[at].Signature...)
					y[at].Signature[b] ^= 1
					w.vote(right, 0, w.now, y, no)
				}
				c.Case("%d validators, %d votes, time %d is changed", vals, n, at)
				y := append([]item(nil), l...)
				y[at].Timestamp++
				var ts []int64
				for _, z := range y {
					ts = append(ts, z.Timestamp)
				}
				w.vote(right, 0, median(ts), y, no)
			}
		}
	}
	if vals > 4 {
		return
	}
	// orders
	var perm func(l []int)
	perm = func(l []int) {
		if len(l) == vals {
			var y []item
			for _, i := range l {
				y = append(y, sig(good(i)))
			}
			c.Case("votes in the order %v", l)
			c.State(l)
			w.vote(right, 0, w.now, y, yes)
			return
		}
		for i := 0; i < vals; i++ {
			in := false
			for _, j := range l {
				in = in || i == j
			}
			if !in {
				perm(append(append([]int(nil), l...), i))
			}
		}
	}
	perm(nil)
	// times
	p := prev.Timestamp()
	times := []int64{p - 3, p, p + 1, p + 4, p + 7}
	for n := need; n <= vals; n++ {
		sel := make([]int, n)
		for {
			var y []item
			var ts []int64
			for i, s := range sel {
				v := good(i)
				v.when = times[s]
				ts = append(ts, v.when)
				y = append(y, sig(v))
			}
			m := median(ts)
			for _, at := range []int64{m - 1, m, m + 1, p, p + 1, ts[0]} {
				c.Case("votes at %v after the parent, block at %d", rel(ts, p), at-p)
				c.State(rel(ts, p), at-p)
				want := no
				if at == m && m > p {
					want = yes
				}
				w.vote(right, 0, at, y, want)
			}
			i := 0
			for i < n {
				sel[i]++
				if sel[i] < len(times) {
					break
				}
				sel[i] = 0
				i++
			}
			if i == n {
				break
			}
		}
	}
}

func rel(ts []int64, p int64) (r []int64) {
	for _, t := range ts {
		r = append(r, t-p)
	}
	return
}

// Change is a chain whose validators change: each block is given with the votes of each set of them.
func Change(c *mc.Ctx, from, to int) {
	c.Case("%d validators become %d", from, to)
	g := genesis(from)
	hv := g["chain"].(mc.J)["havah"].(mc.J)
	hv["termPeriod"] = "0x3"
	g["accounts"] = append(g["accounts"].([]any), mc.J{"name": "governance", "address": Wallet(190).Address().String(), "balance": "0x3635c9adc5dea00000"})
	w := &World{c: c}
	var err error
	w.a, err = Open(mc.NewDB(), engine(), g, 0)
	mc.Must(err)
	w.b, err = Open(mc.NewDB(), engine(), g, 9)
	mc.Must(err)
	defer w.Close()
	voters := func(h int64) (r []int) { // for the block of the height
		if h < 1 {
			return nil
		}
		b, err := w.a.BM.GetBlockByHeight(h - 1)
		mc.Must(err)
		vl := b.NextValidators()
		for i := 0; i < vl.Len(); i++ {
			v, _ := vl.Get(i)
			for k := 0; k < 20; k++ {
				if Wallet(k).Address().Equal(v.Address()) {
					r = append(r, k)
				}
			}
		}
		return
	}
	gov := func(method string, p mc.J) {
		w.seq++
		_, err := w.a.SM.SendTransaction(nil, 0, Tx(90, mc.J{"to": mc.System.String(), "timestamp": Hex(start), "nonce": Hex(w.seq), "dataType": "call", "data": mc.J{"method": method, "params": p}}))
		mc.Must(err)
	}
	seen := map[string]bool{}
	for i := 0; i < 14; i++ {
		last := w.a.Last()
		if i == 1 {
			w.now = start
			gov("startRewardIssue", mc.J{"height": Hex(5)})
			for v := 0; v < to; v++ {
				gov("registerValidator", mc.J{"owner": mc.User(20 + v).String(), "nodePublicKey": "0x" + hex.EncodeToString(Wallet(10+v).PublicKey()), "grade": "main", "name": "v"})
			}
			gov("setActiveValidatorCount", mc.J{"count": Hex(int64(to))})
			gov("setBlockVoteCheckParameters", mc.J{"period": "0x0", "allowance": "0x1"})
		}
		w.now += sec
		who := voters(last.Height())
		seen[fmt.Sprint(who)] = true
		bc, err := w.a.Propose(last.ID(), Votes(last, 0, w.now, who...))
		if err != nil {
			c.Fail("height %d: %v", last.Height()+1, err)
			return
		}
		right := Bytes(bc)
		if last.Height() > 0 {
			for d := int64(-2); d <= 1; d++ {
				o := voters(last.Height() + d)
				if len(o) == 0 || fmt.Sprint(o) == fmt.Sprint(who) {
					continue
				}
				c.Case("%d validators become %d: block %d with votes of those who vote for %+d", from, to, last.Height()+1, d)
				bs := With(right, func(h *block.V2HeaderFormat, b *block.V2BodyFormat) {
					v := Votes(last, 0, w.now, o...)
					h.VotesHash, b.Votes = v.Hash(), v.Bytes()
				})
				w.give(bs, no, nil)
			}
		}
		c.Case("%d validators become %d: block %d", from, to, last.Height()+1)
		c.State(from, to, i, who)
		w.give(right, yes, bc.ID())
		o, err := w.b.Take(right, 0)
		if err != nil {
			return
		}
		mc.Must(w.b.BM.Finalize(o))
		mc.Must(w.a.BM.Finalize(bc))
	}
	c.Outcome(len(seen))
	if len(seen) < 2 {
		c.Fail("harness: the validators do not change: %v", seen)
	}
}
