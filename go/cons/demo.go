package cons

import (
	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/common/crypto"
	"github.com/icon-project/goloop/consensus"

	"strings"
	"vgo/node"

	"vgo/mc"
)

// Try runs events on the node of a validator of four.
func Try(me int, evs ...Ev) *Local {
	w := NewWorld(4, 0)
	l := w.Replay(me, evs)
	if len(l.Bad) > 0 {
		mc.Demo().Fail("%s: %s", show(evs), strings.Join(l.Bad, "; "))
	}
	return l
}

// Goes runs events on a node, and then all others agree on a block in a round.
func Goes(me int, round int32, evs ...Ev) {
	l := Try(me, evs...)
	l.Decides(round)
	if len(l.Bad) > 0 {
		mc.Demo().Fail("%s: %s", show(evs), strings.Join(l.Bad, "; "))
	}
}

// Net runs a network of n nodes.
func Net(n int, devs ...Dev) {
	c := NewWorld(n, 0).NewCluster()
	c.Run(devs, 2, 2500)
	if len(c.Bad) > 0 {
		mc.Demo().Fail("%d nodes: %v: %s", n, devs, strings.Join(c.Bad, "; "))
	}
}

// P is a proposal, PV and PC are votes of others, I lets the block manager work, T runs timers, C is a crash.
func P(r int32, x string) Ev  { return Ev{K: 'P', R: r, X: x, By: -1, Pol: -1} }
func PV(r int32, x string) Ev { return Ev{K: 'V', R: r, T: Prevote, X: x, By: -1} }
func PC(r int32, x string) Ev { return Ev{K: 'V', R: r, T: Precommit, X: x, By: -1} }

// I, T, C: see P.
var I, T, C = Ev{K: 'I'}, Ev{K: 'T'}, Ev{K: 'C'}

// ---- for demonstrations of what peers send

type (
	// State is what a peer says that it has.
	State = consensus.RoundStateMessage
	// Bits1 is a set.
	Bits1 = consensus.BitArray
	// List is one of votes.
	List = consensus.VoteList
	// Prop is a proposal.
	Prop = consensus.ProposalMessage
)

// Fail ends the demonstration.
func Fail(f string, a ...any) { mc.Demo().Fail(f, a...) }

// World4 is one of four validators.
func World4() *World { return NewWorld(4, 0) }

// I1 makes a list.
func I1(e ...Ev) []Ev { return e }

func (l *Local) fails() {
	if len(l.Bad) > 0 {
		Fail("%s", strings.Join(l.Bad, "; "))
	}
}

// Told has a node told what a peer has.
func Told(evs []Ev, set func(m *State)) {
	l := Try(3, evs...)
	ok := &consensus.BitArray{NumBits: 4, Words: []uint64{0}}
	m := &consensus.RoundStateMessage{}
	m.Height, m.Sync, m.PrevotesMask, m.PrecommitsMask = 1, true, ok, ok
	set(m)
	l.join(7)
	l.tell(enc(m), 7)
	l.fails()
	l.Stop()
}

// Has tells whether a node was told a vote for A.
func Has(l *Local, t consensus.VoteType, r int32, who int) bool { return l.knows(t, r, who) }

// VoteOf reads a vote.
func VoteOf(b []byte) *consensus.VoteMessage {
	m, err := consensus.UnmarshalMessage(consensus.ProtoVote.Uint16(), b)
	mc.Must(err)
	return m.(*consensus.VoteMessage)
}

// TellVotes gives a node a list of votes.
func TellVotes(l *Local, vl *List) {
	l.Sync(consensus.ProtoVoteList, enc(&consensus.VoteListMessage{VoteList: vl}), peer(7))
	l.fails()
}

// Junk is a signature which gives no key.
func Junk() common.Signature {
	b := make([]byte, 65)
	for i := range b[:64] {
		b[i] = 0xff
	}
	s, err := crypto.ParseSignature(b)
	mc.Must(err)
	return common.Signature{Signature: s}
}

// Propose gives a node a proposal signed by another.
func Propose(l *Local, by int, set func(*Prop)) {
	m := consensus.NewProposalMessage()
	m.Height, m.BlockPartSetID, m.POLRound, m.NID = 1, l.Block("A").psid, -1, nid
	set(m)
	mc.Must(m.Sign(node.Wallet(by)))
	l.Recv(consensus.ProtoProposal, enc(m), peer(by))
	l.Do(Ev{K: 'D', X: "A"})
	l.fails()
}

// Cut cuts n bytes in parts.
func Cut(n, size int) consensus.PartSet {
	b := consensus.NewPartSetBuffer(size)
	b.Write(content(n))
	return b.PartSet()
}

// Empty is a set which waits for the parts of another.
func Empty(ps consensus.PartSet) consensus.PartSet { return consensus.NewPartSetFromID(ps.ID()) }

// PartOf is part i, which has the proof of part j.
func PartOf(ps consensus.PartSet, i, j int) consensus.Part {
	var x struct {
		Index uint16
		Proof [][]byte
	}
	bc.MustUnmarshalFromBytes(ps.GetPart(j).Bytes(), &x)
	x.Index = uint16(i)
	p, err := consensus.NewPart(enc(&x))
	mc.Must(err)
	return p
}

// Halved gives two nodes which know that a block is decided, and have some of its parts each.
func Halved(parts, ma, mb int) (a, b *Local) {
	w := NewWorld(4, consensus.ConfigBlockPartSize*(parts-1)+10)
	a, b = w.NewLocal(3), w.NewLocal(0)
	blk := a.Block("A")
	for k, l := range []*Local{a, b} {
		m := []int{ma, mb}[k]
		l.Recv(consensus.ProtoProposal, w.Proposal(1, 1, 0, blk, -1), peer(1))
		l.Do(PC(0, "A"))
		for i := range blk.part {
			if m>>i&1 == 1 {
				l.Recv(consensus.ProtoBlockPart, w.Part(blk, i), peer(1))
			}
		}
		l.Settle()
	}
	return
}

// BehindDemo is Behind for a node which knows nothing.
func BehindDemo(parts, heights int, restart bool) { Behind(mc.Demo(), parts, heights, restart, nil) }
