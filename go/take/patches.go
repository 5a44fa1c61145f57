package take

import (
	"bytes"
	"fmt"
	"math/bits"

	"github.com/icon-project/goloop/common/codec"
	"github.com/icon-project/goloop/consensus"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/state"
	"vgo/mc"
	. "vgo/node"
)

// a patch which skips the transactions of a block shows votes for no block at the next height.
type patch struct {
	VoteList consensus.VoteList
}

const nid = 1

type nilVote struct {
	who    int
	height int64
	round  int32
	nid    int
	block  bool
	spoil  string
}

func (v nilVote) msg() *consensus.VoteMessage {
	id := codec.MustMarshalToBytes(v.nid)
	var ps *consensus.PartSetID
	if v.block {
		id, ps = bytes.Repeat([]byte{9}, 32), parts(1)
	}
	m := consensus.NewVoteMessage(Wallet(v.who), consensus.VoteTypePrevote, v.height, v.round, id, ps, start, nil, nil, 0)
	switch v.spoil {
	case "time":
		m.Timestamp++
	case "none":
		m.Signature.Signature = nil
	}
	return m
}

// Patches gives all kinds of such patches for a number of validators.
func Patches(c *mc.Ctx, vals int) {
	var l []module.Validator
	for i := 0; i < vals; i++ {
		v, err := state.ValidatorFromAddress(Wallet(i).Address())
		mc.Must(err)
		l = append(l, v)
	}
	vl, err := state.ValidatorSnapshotFromSlice(mc.NewDB(), l)
	mc.Must(err)
	give := func(pt *patch, limit int64, want bool) {
		c.Trans(1)
		c.Guard(func() {
			bs := codec.MustMarshalToBytes(pt)
			p, err := consensus.DecodePatch(module.PatchTypeSkipTransaction, bs)
			if err == nil {
				s := p.(module.SkipTransactionPatch)
				if h := s.Height(); want && h != 4 {
					c.Fail("the height is %d", h)
				}
				err = s.Verify(vl, limit, nid)
			}
			c.Outcome(err == nil)
			if (err == nil) != want {
				c.Fail("%v (expected %v)", err, want)
			}
		})
	}
	run := func(vs []nilVote, limit int64, want bool) {
		c.State(vals, vs, limit)
		pt := &patch{}
		for _, v := range vs {
			pt.VoteList.AddVote(v.msg())
		}
		give(pt, limit, want)
	}
	good := nilVote{height: 5, round: 3, nid: nid}
	for s := uint(0); s < 1<<vals; s++ {
		for _, limit := range []int64{2, 3, 4} {
			var vs []nilVote
			for i := 0; i < vals; i++ {
				if s>>i&1 == 1 {
					v := good
					v.who = i
					vs = append(vs, v)
				}
			}
			c.Case("%d validators, of whom %b show votes for no block, from round %d", vals, s, limit)
			run(vs, limit, 3*bits.OnesCount(s) >= vals && bits.OnesCount(s) > vals/3 && limit <= 3)
		}
	}
	bad := []struct {
		name string
		f    func(v *nilVote)
	}{
		{"of an earlier round", func(v *nilVote) { v.round-- }}, {"of a later round", func(v *nilVote) { v.round++ }},
		{"of an earlier height", func(v *nilVote) { v.height-- }}, {"of a later height", func(v *nilVote) { v.height++ }},
		{"of another network", func(v *nilVote) { v.nid = 2 }}, {"for a block", func(v *nilVote) { v.block = true }},
		{"of nobody", func(v *nilVote) { v.who = 50 }}, {"of the next one again", func(v *nilVote) { v.who++ }},
		{"altered", func(v *nilVote) { v.spoil = "time" }}, {"not signed", func(v *nilVote) { v.spoil = "none" }},
	}
	for n := vals/3 + 1; n <= vals; n++ {
		for at := 0; at < n; at++ {
			for _, b := range bad {
				var vs []nilVote
				for i := 0; i < n; i++ {
					v := good
					v.who = i
					if i == at {
						b.f(&v)
					}
					vs = append(vs, v)
				}
				c.Case("%d validators, %d votes, the one at %d is %s", vals, n, at, b.name)
				want := false
				switch b.name { // alone, or as the last of them, it may be right
				case "of a later round":
					want = n == 1
				case "of the next one again":
					want = at == n-1 && n < vals
				case "of an earlier height", "of a later height":
					if n == 1 {
						continue
					}
				}
				run(vs, 3, want)
			}
			for _, x := range []int16{-1, 1, 2, 32767, -32768} {
				pt := &patch{}
				for i := 0; i < n; i++ {
					v := good
					v.who = i
					pt.VoteList.AddVote(v.msg())
				}
				pt.VoteList.VoteItems[at].PrototypeIndex = x
				c.Case("%d validators, %d votes, the one at %d is of kind %d which there is not", vals, n, at, x)
				c.State(vals, n, at, x)
				give(pt, 3, false)
			}
		}
	}
	c.Case("%d validators, junk", vals)
	for _, j := range [][]byte{nil, {}, {0}, {0xc0}, {0xc1, 0xc0}, {0xc2, 0xc0, 0xc0}, {0xc3, 0xc2, 0xc0, 0xc0}, {0xf8, 0xff}, bytes.Repeat([]byte{0xc1}, 40)} {
		c.Trans(1)
		c.Guard(func() {
			p, err := consensus.DecodePatch(module.PatchTypeSkipTransaction, j)
			if err != nil {
				return
			}
			s := p.(module.SkipTransactionPatch)
			_ = s.Height()
			if s.Verify(vl, 3, nid) == nil {
				c.Fail("accepted: %x", j)
			}
		})
	}
	c.State(fmt.Sprint("junk"))
}
