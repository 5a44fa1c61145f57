package entry

import (
	"math/big"

	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/transaction"
	"vgo/mc"
	. "vgo/node"
)

// lists: blocks with any transactions in their two lists. A block's patches belong to the block before it.
func Lists(c *mc.Ctx, most int) {
	const atoms = "uvqrdp" // u, v: of a user; q, r: patches of a validator and of a user; d, p: what is already in the list of the block before
	var all []string
	for l := []string{""}; len(l) > 0 && len(l[0]) <= most; {
		all = append(all, l...)
		var n []string
		for _, s := range l {
			for _, a := range atoms {
				n = append(n, s+string(a))
			}
		}
		l = n
	}
	g := MakeGenesis(1, mc.J{}, mc.J{})
	var w *world
	var e *Node
	end := func() {
		if w != nil {
			w.n.Close()
			e.Close()
			w = nil
		}
	}
	defer end()
	for _, ps := range all {
		for _, ns := range all {
			if len(ps)+len(ns) > most+1 {
				continue
			}
			c.Case("patches %q, others %q", ps, ns)
			c.State(ps, ns)
			if w == nil {
				w = OpenOn(c, g)
				var err error
				e, err = OpenTwisted(mc.NewDB(), engine(), g, 0, &Twist{})
				mc.Must(err)
				for h := int64(1); h <= w.n.Last().Height(); h++ {
					b, err := w.n.BM.GetBlockByHeight(h)
					mc.Must(err)
					if !follow(c, e, Bytes(b)) {
						return
					}
				}
			}
			if !Twisted(c, w, e, ps, ns) {
				end()
			}
		}
	}
}

func Twisted(c *mc.Ctx, w *world, e *Node, ps, ns string) bool {
	n := c.Fails()
	w.now += 4 * win
	w.seq++
	user := func(k int) module.Transaction {
		return Tx(k, mc.J{"to": Wallet(140 + k).Address().String(), "value": "0x1", "timestamp": Hex(w.now), "nonce": Hex(int64(w.seq)), "stepLimit": "0x100000"})
	}
	patch := func(by module.Wallet, k int64) module.Transaction {
		tx, err := transaction.NewPatchTransaction(patchData{k}, 1, w.now, by)
		mc.Must(err)
		return tx
	}
	m := map[byte]module.Transaction{'u': user(0), 'v': user(1), 'q': patch(Wallet(0), 0), 'r': patch(Wallet(101), 1), 'd': user(2), 'p': patch(Wallet(0), 2)}
	pick := func(s string) (r []module.Transaction) {
		for i := range s {
			r = append(r, m[s[i]])
		}
		return
	}
	give := func(p, q []module.Transaction, at int64) (module.BlockCandidate, error) {
		e.Twist.On, e.Twist.Patches, e.Twist.Normals = true, p, q
		bc, err := e.Propose(e.Last().ID(), Votes(e.Last(), 0, at, 0))
		e.Twist.On = false
		if err != nil {
			return nil, err
		}
		bs := Bytes(bc)
		o, err := w.n.Take(bs, 0)
		if err != nil {
			bc.Dispose()
			return nil, err
		}
		mc.Must(e.BM.Finalize(bc))
		if err := w.n.BM.Finalize(o); err != nil {
			c.Fail("not finalized: %v", err)
		}
		return o, nil
	}
	supply := func(k int) *big.Int {
		b, err := w.n.SM.GetBalance(w.n.Last().Result(), Wallet(140+k).Address())
		mc.Must(err)
		return b
	}
	before := []*big.Int{supply(0), supply(1), supply(2)}
	// a block with d and p
	if _, err := give(pick("p"), pick("d"), w.now); err != nil {
		c.Fail("a block with a patch and a transaction is refused: %v", err)
		return false
	}
	want := true
	for i := range ps {
		want = want && (ps[i] == 'q' || ps[i] == 'r')
	}
	for i := range ns {
		want = want && (ns[i] == 'u' || ns[i] == 'v')
	}
	all := ps + ns
	for i := range all {
		for j := range all[:i] {
			want = want && all[i] != all[j]
		}
	}
	w.now += ms
	c.Trans(1)
	_, err := give(pick(ps), pick(ns), w.now)
	c.Outcome(err == nil, len(ps), len(ns))
	c.Expect(err == nil, want, "the block is accepted: %v", err)
	for i := 0; i < 2; i++ {
		w.now += ms
		if _, err := give(nil, nil, w.now); err != nil {
			c.Fail("the chain stops: %v", err)
			return false
		}
	}
	for k, a := range "uvd" {
		x := int64(0)
		if err == nil || a == 'd' {
			for i := range ns {
				if ns[i] == byte(a) {
					x = 1
				}
			}
		}
		if a == 'd' {
			x = 1
		}
		if err == nil || a == 'd' {
			got := new(big.Int).Sub(supply(k), before[k])
			c.Expect(got.Int64(), x, "times transaction %c was executed", a)
		}
	}
	return n == c.Fails()
}

// patchData is a patch nobody can use.
type patchData struct{ n int64 }

func (p patchData) Type() string { return module.PatchTypeSkipTransaction }
func (p patchData) Data() []byte { return []byte{byte(p.n)} }

// List runs one.
func List(ps, ns string) {
	c := mc.Demo()
	g := MakeGenesis(1, mc.J{}, mc.J{})
	w := OpenOn(c, g)
	e, err := OpenTwisted(mc.NewDB(), engine(), g, 0, &Twist{})
	mc.Must(err)
	for h := int64(1); h <= w.n.Last().Height(); h++ {
		b, err := w.n.BM.GetBlockByHeight(h)
		mc.Must(err)
		follow(c, e, Bytes(b))
	}
	Twisted(c, w, e, ps, ns)
	w.n.Close()
	e.Close()
}
