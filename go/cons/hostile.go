package cons

import (
	"fmt"
	"strings"
	"time"

	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/common/crypto"
	"github.com/icon-project/goloop/consensus"
	"github.com/icon-project/goloop/module"

	"vgo/mc"
	"vgo/mctime"
	"vgo/node"
)

// scene is where a node is when it gets a message of another, and what follows.
type scene struct {
	name string
	evs  []Ev
	p    module.ProtocolInfo
	msg  func(l *Local) []byte
	then []Ev
}

func raw(vs ...any) []byte {
	var vl consensus.VoteList
	for _, b := range vs {
		m, err := consensus.UnmarshalMessage(consensus.ProtoVote.Uint16(), b.([]byte))
		mc.Must(err)
		vl.AddVote(m.(*consensus.VoteMessage))
	}
	return enc(&consensus.VoteListMessage{VoteList: &vl})
}

func scenes() []scene {
	vote := func(t consensus.VoteType, who ...int) func(l *Local) []byte {
		return func(l *Local) []byte {
			var v []any
			for _, i := range who {
				v = append(v, l.W.Vote(i, t, l.Height(), 0, l.Block("A"), 0))
			}
			if len(who) > 1 {
				return raw(v...)
			}
			return v[0].([]byte)
		}
	}
	one := func(t consensus.VoteType) []Ev {
		return []Ev{{K: 'V', T: t, X: "A", By: 1}}
	}
	pre := []Ev{P(0, "A"), I}
	com := append(append([]Ev(nil), pre...), PV(0, "A"))
	return []scene{
		{"proposal", nil, consensus.ProtoProposal, func(l *Local) []byte {
			return l.W.Proposal(l.W.proposer(l.Height(), 0), l.Height(), 0, l.Block("A"), -1)
		}, []Ev{{K: 'D', X: "A"}, I}},
		{"prevote", append(append([]Ev(nil), pre...), one(Prevote)...), consensus.ProtoVote, vote(Prevote, 2), []Ev{T}},
		{"precommit", append(append([]Ev(nil), com...), one(Precommit)...), consensus.ProtoVote, vote(Precommit, 2), []Ev{{K: 'D', X: "A"}, I}},
		{"prevotes", pre, consensus.ProtoVoteList, vote(Prevote, 1, 2), []Ev{T}},
		{"precommits", com, consensus.ProtoVoteList, vote(Precommit, 1, 2), []Ev{{K: 'D', X: "A"}, I}},
		{"part", nil, consensus.ProtoBlockPart, func(l *Local) []byte { return l.W.Part(l.Block("A"), 0) }, []Ev{P(0, "A"), I}},
		{"part after proposal", []Ev{PV(0, "A"), PC(0, "A")}, consensus.ProtoBlockPart, func(l *Local) []byte { return l.W.Part(l.Block("A"), 0) }, nil},
	}
}

// same tells whether two messages say the same.
func same(p module.ProtocolInfo, a, b []byte) bool {
	x, err := consensus.UnmarshalMessage(p.Uint16(), a)
	if err != nil {
		return false
	}
	y, err := consensus.UnmarshalMessage(p.Uint16(), b)
	mc.Must(err)
	return sane(x) == sane(y)
}

// sane is what a message says; a signature tells in a bit which form of the public key is wanted, which nobody looks at.
func sane(m consensus.Message) string {
	fix := func(s *common.Signature) {
		if s.Signature == nil {
			return
		}
		if b, err := s.Signature.SerializeRSV(); err == nil && b[64] < 8 {
			b[64] &= 3
			if t, err := crypto.ParseSignature(b); err == nil {
				s.Signature = t
			}
		}
	}
	switch v := m.(type) {
	case *consensus.ProposalMessage:
		fix(&v.Signature)
	case *consensus.VoteMessage:
		fix(&v.Signature)
	}
	return string(enc(m))
}

// take gives a message to a node and tells the oracle if it is one it may count.
func (l *Local) take(s scene, p module.ProtocolInfo, m, good []byte, from int) {
	if p == s.p && (same(p, m, good) || p == consensus.ProtoVoteList) {
		l.may(p, m)
	}
	if p == consensus.ProtoVoteList {
		l.Sync(p, m, peer(from))
	} else {
		l.Recv(p, m, peer(from))
		if p == consensus.ProtoBlockPart {
			l.Sync(p, m, peer(from))
		}
	}
}

// may tells the oracle which votes a message has that others signed.
func (l *Local) may(p module.ProtocolInfo, m []byte) {
	x, err := consensus.UnmarshalMessage(p.Uint16(), m)
	if err != nil {
		return
	}
	count := func(v *consensus.VoteMessage) {
		for i := 0; i < l.W.N; i++ {
			if i != l.Me && v.BlockPartSetIDAndNTSVoteCount != nil {
				if b := l.W.byPSID[psidKey(v.BlockPartSetIDAndNTSVoteCount.ID())]; b != nil {
					if sane(v) == string(l.W.Vote(i, v.Type, v.Height, v.Round, b, 0)) {
						l.O.got[seen{slot{v.Height, v.Round, v.Type}, b.Name}] |= 1 << i
					}
				}
			}
		}
	}
	switch v := x.(type) {
	case *consensus.ProposalMessage:
		if b := l.W.byPSID[psidKey(v.BlockPartSetID)]; b != nil {
			l.O.props[seen{slot{v.Height, v.Round, 0}, b.Name}] = true
		}
	case *consensus.VoteMessage:
		count(v)
	case *consensus.VoteListMessage:
		if v.VoteList == nil {
			return
		}
		for i, it := range v.VoteList.VoteItems {
			if int(it.PrototypeIndex) >= 0 && int(it.PrototypeIndex) < len(v.VoteList.Prototypes) {
				count(v.VoteList.Get(i))
			}
		}
	}
}

// alter gives all ways in which the bytes of a message may be damaged.
func alter(b []byte, most int, f func(what string, b []byte)) {
	n := len(b)
	if n > most {
		n = most
	}
	for i := 0; i < n*8; i++ {
		c := append([]byte(nil), b...)
		c[i/8] ^= 0x80 >> (i % 8)
		f(fmt.Sprintf("bit %d is turned", i), c)
	}
	for i := 0; i < n; i++ {
		f(fmt.Sprintf("cut to %d bytes", i), append([]byte(nil), b[:i]...))
		f(fmt.Sprintf("without byte %d", i), append(append([]byte(nil), b[:i]...), b[i+1:]...))
		f(fmt.Sprintf("byte %d twice", i), append(append([]byte(nil), b[:i+1]...), b[i:]...))
	}
	for _, x := range []byte{0, 0x80, 0xc0, 0xff} {
		f(fmt.Sprintf("with a byte %02x at the end", x), append(append([]byte(nil), b...), x))
	}
	f("in a list", append([]byte{0xf8, byte(len(b))}, b...))
}

func (w *World) scene(ctx *mc.Ctx, s scene, what string, do func(l *Local, good []byte), honest bool) {
	what = s.name + " " + what
	ctx.Case("%s", what)
	ctx.Trans(1)
	l := w.NewLocal(3)
	defer l.Stop()
	for _, e := range s.evs {
		l.Do(e)
	}
	do(l, s.msg(l))
	for _, e := range s.then {
		if !honest && e.K == 'T' {
			continue
		}
		l.Do(e)
	}
	if len(l.Bad) == 0 {
		if honest {
			l.Decides(0)
		} else if l.Height() == 1 {
			l.rounds(1, "after it")
		}
	}
	if len(l.Bad) > 0 {
		ctx.Fail("%s: %s", what, strings.Join(l.Bad, "; "))
	}
	ctx.NewState(fmt.Sprint(l.Height(), l.O.key()))
}

// Damaged checks that a node is not misled nor stopped by messages whose bytes are altered.
func Damaged(ctx *mc.Ctx, i int) {
	w := NewWorld(4, 0)
	s := scenes()[i]
	good := s.msg(w.Replay(3, s.evs))
	alter(good, 600, func(what string, b []byte) {
		w.scene(ctx, s, what, func(l *Local, good []byte) { l.take(s, s.p, b, good, 2) }, true)
	})
	for _, p := range []module.ProtocolInfo{consensus.ProtoProposal, consensus.ProtoBlockPart, consensus.ProtoVote, consensus.ProtoRoundState, consensus.ProtoVoteList, 0x500, 0xff00, 1} {
		w.scene(ctx, s, fmt.Sprintf("as %v", p), func(l *Local, good []byte) { l.take(s, p, good, good, 2) }, true)
		for _, b := range [][]byte{nil, {0xc0}, {0x80}, {0xf8, 0}, {0xf9, 0xff, 0xff}, {0xc1, 0xf8, 0x00}} {
			w.scene(ctx, s, fmt.Sprintf("%x as %v", b, p), func(l *Local, good []byte) { l.take(s, p, b, good, 2) }, true)
		}
	}
}

// Odd checks that a node is not misled nor stopped by what a validator signs, nor by what another signs in its name.
func Odd(ctx *mc.Ctx, i int) {
	w := NewWorld(4, 0)
	s := scenes()[i]
	l0 := w.Replay(3, s.evs)
	a, b := l0.Block("A"), l0.Block("B")
	type odd struct {
		what string
		set  func(*consensus.VoteMessage, *consensus.ProposalMessage)
	}
	var odds []odd
	both := func(what string, v func(*consensus.VoteMessage), p func(*consensus.ProposalMessage)) {
		odds = append(odds, odd{what, func(m *consensus.VoteMessage, q *consensus.ProposalMessage) {
			if m != nil && v != nil {
				v(m)
			}
			if q != nil && p != nil {
				p(q)
			}
		}})
	}
	for _, h := range []int64{-1 << 63, -1, 0, 2, 3, 1<<63 - 1} {
		h := h
		both(fmt.Sprintf("height %d", h), func(m *consensus.VoteMessage) { m.Height = h }, func(q *consensus.ProposalMessage) { q.Height = h })
	}
	for _, r := range []int32{-1 << 31, -1, 1, 2, 100, 1<<31 - 2, 1<<31 - 1} {
		r := r
		both(fmt.Sprintf("round %d", r), func(m *consensus.VoteMessage) { m.Round = r }, func(q *consensus.ProposalMessage) { q.Round = r })
		both(fmt.Sprintf("POL round %d", r), nil, func(q *consensus.ProposalMessage) { q.POLRound = r })
	}
	for _, t := range []consensus.VoteType{2, 3, 127, 255} {
		t := t
		both(fmt.Sprintf("type %d", t), func(m *consensus.VoteMessage) { m.Type = t }, nil)
	}
	for k, id := range [][]byte{nil, {}, {1}, a.id[:31], append(append([]byte(nil), a.id...), 0), b.id, w.Gen.id} {
		id := id
		both(fmt.Sprintf("block ID %d", k), func(m *consensus.VoteMessage) { m.BlockID = id }, nil)
		both(fmt.Sprintf("nil with block ID %d", k), func(m *consensus.VoteMessage) { m.BlockID = id; m.BlockPartSetIDAndNTSVoteCount = nil }, nil)
	}
	for k, id := range []*consensus.PartSetID{nil, {}, {Count: 0, Hash: a.psid.Hash}, {Count: 65535, Hash: a.psid.Hash}, {Count: a.psid.Count + 1, Hash: a.psid.Hash},
		{Count: a.psid.Count, Hash: nil}, {Count: a.psid.Count, Hash: a.psid.Hash[:31]}, b.psid, {Count: 65535, Hash: make([]byte, 32)}} {
		id := id
		both(fmt.Sprintf("part set %d", k), func(m *consensus.VoteMessage) {
			if id == nil {
				m.BlockPartSetIDAndNTSVoteCount = nil
			} else {
				m.BlockPartSetIDAndNTSVoteCount = id.WithAppData(uint64(nid) << 16)
			}
		}, func(q *consensus.ProposalMessage) { q.BlockPartSetID = id })
	}
	for _, x := range []uint64{0, 1, 2 << 16, 1<<16 | 1, 1<<16 | 65535, 1 << 63, 1<<64 - 1, 1<<48 | 1<<16} {
		x := x
		both(fmt.Sprintf("application data %x", x), func(m *consensus.VoteMessage) { m.BlockPartSetIDAndNTSVoteCount = a.psid.WithAppData(x) },
			func(q *consensus.ProposalMessage) { q.NID = uint32(x>>16) | 2 })
	}
	for _, x := range []int64{-1 << 63, -1, 0, 1<<63 - 1} {
		x := x
		both(fmt.Sprintf("time %d", x), func(m *consensus.VoteMessage) { m.Timestamp = x }, nil)
	}
	for k, x := range [][][]byte{{nil}, {{}}, {{1}, {2}}, make([][]byte, 65536)} {
		x := x
		both(fmt.Sprintf("proof parts %d", k), func(m *consensus.VoteMessage) { m.NTSDProofParts = x }, nil)
	}
	// who signs: a validator, the proposer, the node itself, a stranger
	for _, who := range []int{2, 1, 3, 9} {
		for _, o := range odds {
			w.scene(ctx, s, fmt.Sprintf("of v%d with %s", who, o.what), func(l *Local, good []byte) {
				x, err := consensus.UnmarshalMessage(s.p.Uint16(), good)
				mc.Must(err)
				var m []byte
				switch v := x.(type) {
				case *consensus.ProposalMessage:
					o.set(nil, v)
					v.Sign(node.Wallet(who))
					m = enc(v)
				case *consensus.VoteMessage:
					o.set(v, nil)
					v.Sign(node.Wallet(who))
					m = enc(v)
				case *consensus.VoteListMessage:
					var vl consensus.VoteList
					for i := 0; i < v.VoteList.Len(); i++ {
						q := v.VoteList.Get(i)
						if i == 1 {
							o.set(q, nil)
							q.Sign(node.Wallet(who))
						}
						vl.AddVote(q)
					}
					m = enc(&consensus.VoteListMessage{VoteList: &vl})
				default:
					return
				}
				if strings.HasPrefix(o.what, "time ") && who < 3 {
					// a vote with another time is one all the same
					l.O.got[seen{slot{l.Height(), 0, l.typ(s)}, "A"}] |= 1 << who
				}
				if strings.HasPrefix(o.what, "round ") && who < 3 {
					l.mayAny(s, m, who)
				}
				l.take(s, s.p, m, good, who%4)
			}, s.p == consensus.ProtoProposal)
		}
	}
}

func (l *Local) typ(s scene) consensus.VoteType {
	if strings.HasPrefix(s.name, "precommit") {
		return Precommit
	}
	return Prevote
}

// mayAny counts a vote of another round.
func (l *Local) mayAny(s scene, m []byte, who int) {
	x, err := consensus.UnmarshalMessage(s.p.Uint16(), m)
	if err != nil {
		return
	}
	note := func(v *consensus.VoteMessage) {
		l.O.got[seen{slot{v.Height, v.Round, v.Type}, "A"}] |= 1 << who
	}
	switch v := x.(type) {
	case *consensus.VoteMessage:
		note(v)
	case *consensus.VoteListMessage:
		note(v.VoteList.Get(1))
	}
}

// ---- the part which helps others -----------------------------------------------------------------------

var helperStates = []struct {
	name string
	evs  []Ev
}{
	{"begin", nil},
	{"prevoted", []Ev{P(0, "A"), I, {K: 'V', T: Prevote, X: "A", By: 1}}},
	{"committing", []Ev{PC(0, "A")}},
	{"round 1", []Ev{PC(0, "-,-,-"), P(1, "B")}},
	{"height 2", []Ev{P(0, "A"), I, PV(0, "A"), PC(0, "A")}},
}

// States checks that no report of another about what it has stops a node or keeps it from going on.
func States(ctx *mc.Ctx, part, parts int) {
	w := NewWorld(4, 0)
	masks := []*consensus.BitArray{nil, {}, {NumBits: 4, Words: []uint64{0}}, {NumBits: 4, Words: []uint64{1<<64 - 1}}, {NumBits: 1, Words: []uint64{0}}, {NumBits: -1},
		{NumBits: -200, Words: []uint64{1}}, {NumBits: -64, Words: nil}, {NumBits: 64, Words: []uint64{5}}, {NumBits: 65, Words: []uint64{0, 0}}, {NumBits: 65, Words: []uint64{0}},
		{NumBits: 1 << 40, Words: []uint64{0}}, {NumBits: -1 << 63, Words: []uint64{0}}, {NumBits: 1, Words: []uint64{0, 7}}, {NumBits: 0, Words: []uint64{9}}, {NumBits: 1<<63 - 1, Words: []uint64{1}}}
	n := 0
	for _, st := range helperStates {
		for _, h := range []int64{1, 2, 3, 100, 1<<63 - 1, 0, -1} {
			for _, r := range []int32{0, 1, 2, 1<<31 - 1, -1} {
				for _, which := range []string{"prevotes", "precommits", "parts"} {
					for k, m := range masks {
						if which != "prevotes" && k == 2 {
							continue
						}
						n++
						if n%parts != part {
							continue
						}
						what := fmt.Sprintf("%s: a peer says it is at height %d round %d with a mask of %s %+v", st.name, h, r, which, show1(m))
						ctx.Case("%s", what)
						ctx.Trans(1)
						l := w.Replay(3, st.evs)
						x := &consensus.RoundStateMessage{}
						ok := &consensus.BitArray{NumBits: 4, Words: []uint64{0}}
						x.Height, x.Round, x.Sync, x.PrevotesMask, x.PrecommitsMask = h, r, true, ok, ok
						switch which {
						case "prevotes":
							x.PrevotesMask = m
						case "precommits":
							x.PrecommitsMask = m
						case "parts":
							x.BlockPartsMask = m
						}
						l.join(7)
						l.tell(enc(x), 7)
						if len(l.Bad) == 0 && l.Height() == 1 && len(st.evs) != 1 {
							l.rounds(1, "after it")
						}
						if len(l.Bad) > 0 {
							ctx.Fail("%s: %s", what, strings.Join(l.Bad, "; "))
						}
						ctx.NewState(st.name)
						l.Stop()
					}
				}
			}
		}
	}
}

func show1(m *consensus.BitArray) any {
	if m == nil {
		return "none"
	}
	return fmt.Sprint(m.NumBits, " of ", m.Words)
}

func (l *Local) join(who int) {
	mctime.Use(l.Clock)
	l.guard("join", func() { l.reactors["consensus.sync"].OnJoin(peer(who)) })
}

// tell gives a report to the helper, and waits until it was used.
func (l *Local) tell(m []byte, who int) {
	c := mctime.Asked()
	if err := l.Sync(consensus.ProtoRoundState, m, peer(who)); err == nil {
		for i := 0; i < 200 && mctime.Asked() < c+2; i++ {
			time.Sleep(100 * time.Microsecond)
		}
		l.Status() // waits for it
	}
}

// Behind checks that a node which has decided blocks tells one which did not all it needs.
func Behind(ctx *mc.Ctx, parts, heights int, restart bool, know func(b *Local, blk *Blk)) {
	w := NewWorld(4, 0)
	if parts > 1 {
		w.pad = consensus.ConfigBlockPartSize*(parts-1) + 10
	}
	a, b := w.NewLocal(3), w.NewLocal(0)
	defer a.Stop()
	defer b.Stop()
	var last module.CommitVoteSet
	for h := 0; h < heights; h++ {
		for _, e := range []Ev{P(0, "A"), I, PV(0, "A"), PC(0, "A")} {
			a.Do(e)
		}
		a.Last().votes = last
		var err error
		if last, err = a.cs.GetVotesByHeight(int64(h + 1)); err != nil {
			ctx.Fail("the votes of the last block, %d, are not found: %v", h+1, err)
			return
		}
	}
	if restart {
		a.Do(C)
	}
	if int(a.Height()) != heights+1 || len(a.Bad) > 0 {
		ctx.Fail("%d blocks of %d parts: the first node does not decide them: %v", heights, parts, a.Bad)
		return
	}
	if len(a.disk.blocks[1].part) != parts {
		ctx.Fail("a block has %d parts instead of %d", len(a.disk.blocks[1].part), parts)
		return
	}
	if know != nil {
		know(b, a.disk.blocks[1])
	}
	what := fmt.Sprintf("%d blocks of %d parts", heights, parts)
	n := Relay(a, b, func() bool { return b.Height() == a.Height() })
	ctx.Trans(n)
	for _, l := range []*Local{a, b} {
		if len(l.Bad) > 0 {
			ctx.Fail("%s: v%d %s", what, l.Me, strings.Join(l.Bad, "; "))
			return
		}
	}
	if b.Height() != a.Height() {
		ctx.Fail("%s: a node which did not hear of them is only told so much that it decides up to %d of %d", what, b.Height()-1, heights)
	}
	for h := range b.disk.blocks {
		if b.disk.blocks[h] != a.disk.blocks[h] {
			ctx.Fail("%s: it decides another block at %d", what, h)
		}
	}
}

// Relay lets the helpers of two nodes talk until they are done.
func Relay(a, b *Local, done func() bool) int {
	type pkt struct {
		to   *Local
		from int
		m    Msg
	}
	ch := make(chan pkt, 1<<16)
	for _, p := range [][2]*Local{{a, b}, {b, a}} {
		from, to := p[0], p[1]
		sent := from.O.sent
		from.OnSend = func(m Msg) {
			sent(m)
			if m.R == "consensus.sync" {
				ch <- pkt{to, from.Me, m}
			}
		}
	}
	a.join(b.Me)
	b.join(a.Me)
	n, idle := 0, 0
	for idle < 12 && !done() && len(a.Bad)+len(b.Bad) == 0 {
		select {
		case p := <-ch:
			n++
			if p.m.P == consensus.ProtoVoteList {
				p.to.note(p.m)
			}
			p.to.Sync(p.m.P, p.m.B, peer(p.from))
		case <-time.After(time.Duration(20+20*idle) * time.Millisecond):
			idle++
			for _, l := range []*Local{a, b} {
				mctime.Use(l.Clock)
				l.guard("timer", func() { l.Clock.FireUpTo(l.Me, 500*time.Millisecond) })
				l.Settle()
			}
		}
		b.Settle()
	}
	return n
}

// Behinds tries all that the one which is behind may know already.
func Behinds(ctx *mc.Ctx, parts int) {
	run := func(what string, heights int, know func(*Local, *Blk)) {
		for _, restart := range []bool{false, true} {
			ctx.Case("%d blocks of %d parts, %s, restart %v", heights, parts, what, restart)
			Behind(ctx, parts, heights, restart, know)
			ctx.NewState(fmt.Sprint(what, restart))
		}
	}
	run("nothing known", 1, nil)
	if parts > 3 {
		for _, miss := range []int{0, parts / 2, parts - 1} {
			run(fmt.Sprintf("all but part %d known", miss), 1, func(b *Local, k *Blk) {
				b.Do(PC(0, "A"))
				for i := range k.part {
					if i != miss {
						b.Recv(consensus.ProtoBlockPart, b.W.Part(k, i), peer(1))
					}
				}
			})
		}
		return
	}
	run("nothing known", 2, nil)
	for m := 0; m < 1<<parts; m++ {
		for _, v := range []string{"", "A", "A,A", "-,A"} {
			m, v := m, v
			for _, t := range []consensus.VoteType{Prevote, Precommit} {
				for heights := 1; heights < 3; heights++ {
					run(fmt.Sprintf("parts %b and %v %s known", m, t, v), heights, func(b *Local, k *Blk) {
						b.O.props[seen{slot{1, 0, 0}, "A"}] = true
						b.Recv(consensus.ProtoProposal, b.W.Proposal(1, 1, 0, k, -1), peer(1))
						b.Do(Ev{K: 'V', T: t, X: v + ",,", By: -1})
						for i := range k.part {
							if m>>i&1 == 1 {
								b.Recv(consensus.ProtoBlockPart, b.W.Part(k, i), peer(1))
							}
						}
					})
				}
			}
		}
	}
}

// Votes checks that one which misses votes is told them.
func Votes(ctx *mc.Ctx) {
	w := NewWorld(4, 0)
	// who voted, as the first node knows: v1 and v2; as the other knows: the same or less
	for round := int32(0); round < 2; round++ {
		for ka := 1; ka < 4; ka++ {
			for kb := 0; kb < 8; kb++ {
				for _, t := range []consensus.VoteType{Prevote, Precommit} {
					what := fmt.Sprintf("r%d: one has %v %03b, the other %03b", round, t, ka, kb)
					ctx.Case("%s", what)
					a, b := w.NewLocal(3), w.NewLocal(0)
					for k, l := range []*Local{a, b} {
						if round == 1 && (k == 0 || kb&1 == 0) {
							l.Do(PC(0, "-,-,-"))
						}
						for i := 0; i < 2; i++ {
							m := ka
							if k == 1 {
								m = kb
							}
							if m>>i&1 == 1 {
								l.Do(Ev{K: 'V', R: round, T: t, X: "A", By: i + 1})
							}
						}
					}
					has := func() bool {
						for i := 0; i < 2; i++ {
							if ka>>i&1 == 1 && !b.knows(t, round, i+1) {
								return false
							}
						}
						return b.Status().Round >= a.Status().Round
					}
					ctx.Trans(Relay(a, b, has))
					if !has() {
						ctx.Fail("%s: it is not told (rounds %d, %d)", what, a.Status().Round, b.Status().Round)
					}
					for _, l := range []*Local{a, b} {
						if len(l.Bad) > 0 {
							ctx.Fail("%s: v%d %s", what, l.Me, strings.Join(l.Bad, "; "))
						}
						l.Stop()
					}
					ctx.NewState(what)
				}
			}
		}
	}
}

// knows tells whether the node got a vote, by what it reports.
func (l *Local) knows(t consensus.VoteType, round int32, who int) bool {
	return l.O.got[seen{slot{l.Height(), round, t}, "A"}]>>who&1 == 1
}

// Halves checks that two nodes which know that a block is decided, and have some parts each, tell each other the others.
func Halves(ctx *mc.Ctx, parts int) {
	w := NewWorld(4, 0)
	w.pad = consensus.ConfigBlockPartSize*(parts-1) + 10
	for ma := 0; ma < 1<<parts; ma++ {
		for mb := 0; mb < 1<<parts; mb++ {
			for _, votes := range []string{"A,A,A", ",,", "A,,"} {
				if ma|mb != 1<<parts-1 {
					continue // a part is with none of them
				}
				if votes != "A,A,A" && mb != 0 && mb != 1 {
					continue
				}
				what := fmt.Sprintf("a block of %d parts: one knows that it is decided and has parts %b, the other has votes %s and parts %b", parts, ma, votes, mb)
				ctx.Case("%s", what)
				a, b := w.NewLocal(3), w.NewLocal(0)
				blk := a.Block("A")
				for k, l := range []*Local{a, b} {
					m, v := ma, "A,A,A"
					if k == 1 {
						m, v = mb, votes
					}
					l.O.props[seen{slot{1, 0, 0}, "A"}] = true
					l.Recv(consensus.ProtoProposal, w.Proposal(1, 1, 0, blk, -1), peer(1))
					l.Do(Ev{K: 'V', T: Precommit, X: v, By: -1})
					for i := range blk.part {
						if m>>i&1 == 1 {
							l.Recv(consensus.ProtoBlockPart, w.Part(blk, i), peer(1))
						}
					}
					l.Settle()
				}
				ctx.Trans(Relay(a, b, func() bool { return a.Height() == 2 && b.Height() == 2 }))
				for _, l := range []*Local{a, b} {
					if len(l.Bad) == 0 && l.Height() != 2 {
						l.bad("is not told the parts it has not")
					}
					if len(l.Bad) > 0 {
						ctx.Fail("%s: v%d %s", what, l.Me, strings.Join(l.Bad, "; "))
					}
					l.Stop()
				}
				ctx.NewState(what)
			}
		}
	}
}
