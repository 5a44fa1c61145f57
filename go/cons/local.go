package cons

import (
	"fmt"
	"sort"
	"strings"

	"github.com/icon-project/goloop/consensus"

	"vgo/mc"
	"vgo/node"
)

// Ev is a thing which happens to a node.
type Ev struct {
	K     byte // P proposal, D parts of a block, V votes, I the block manager is done, T timers run, C crash
	R     int32
	T     consensus.VoteType
	X     string // names of blocks; "-" is none
	By    int
	Pol   int32
	Crash int // the node is gone after so many effects (0: it is not)
	Lost  bool
}

func (e Ev) String() string {
	s := ""
	switch e.K {
	case 'P':
		s = fmt.Sprintf("proposal r%d %s", e.R, e.X)
		if e.Pol >= 0 {
			s += fmt.Sprintf(" POL r%d", e.Pol)
		}
		if e.By >= 0 {
			s += fmt.Sprintf(" by v%d", e.By)
		}
	case 'D':
		s = "parts " + e.X
	case 'V':
		s = fmt.Sprintf("%v r%d %s", e.T, e.R, e.X)
		if e.By >= 0 {
			s += fmt.Sprintf(" by v%d", e.By)
		}
	case 'I':
		s = "work"
	case 'F':
		s = "work done but not told"
	case 'T':
		s = "tick"
	case 'C':
		s = "crash"
	}
	if e.Crash > 0 {
		s += fmt.Sprintf(" †%d", e.Crash)
	}
	if e.Lost {
		s += " lost"
	}
	return s
}

type slot struct {
	h int64
	r int32
	t consensus.VoteType
}

type seen struct {
	slot
	b string
}

// Oracle judges what a node does by what it was told.
type Oracle struct {
	n     *Node
	vote  map[slot]string
	prop  map[slot]string
	got   map[seen]int // who voted so, as far as the node may know
	props map[seen]bool
	valid map[string]bool
	locks []seen // precommits of blocks of this height
}

func (n *Node) oracle() *Oracle {
	o := &Oracle{n, map[slot]string{}, map[slot]string{}, map[seen]int{}, map[seen]bool{}, map[string]bool{}, nil}
	n.OnSend = o.sent
	n.OnFinal = o.final
	n.OnWrite = o.wrote
	return o
}

func bits(m int) (c int) {
	for ; m != 0; m &= m - 1 {
		c++
	}
	return
}

func (o *Oracle) quorum(s seen) bool { return bits(o.got[s])*3 > 2*o.n.W.N }

func (o *Oracle) sent(m Msg) {
	n := o.n
	x, err := consensus.UnmarshalMessage(m.P.Uint16(), m.B)
	if err != nil {
		n.bad("sends a message which can not be read: %v", err)
		return
	}
	switch v := x.(type) {
	case *consensus.ProposalMessage:
		b := n.W.byPSID[psidKey(v.BlockPartSetID)]
		if b == nil {
			n.bad("proposes an unknown block")
			return
		}
		s := slot{v.Height, v.Round, 0}
		if n.W.proposer(v.Height, v.Round) != n.Me {
			n.bad("proposes in r%d which is of another", v.Round)
		}
		if p, ok := o.prop[s]; ok && p != b.Name {
			n.bad("proposes %s and %s in r%d", p, b.Name, v.Round)
		}
		o.prop[s] = b.Name
		o.props[seen{s, b.Name}] = true
		if b.Prop == n.Me {
			o.valid[b.Name] = true
		}
	case *consensus.VoteMessage:
		n.W.signer[string(m.B)] = n.Me
		name := "-"
		var b *Blk
		if v.BlockPartSetIDAndNTSVoteCount != nil {
			b = n.W.byPSID[psidKey(v.BlockPartSetIDAndNTSVoteCount.ID())]
			if b == nil || string(b.id) != string(v.BlockID) {
				n.bad("votes for an unknown block")
				return
			}
			name = b.Name
		}
		o.voted(slot{v.Height, v.Round, v.Type}, name, b)
	}
}

// wrote takes note of a vote which counts for the node itself, though it may not be sent before a crash.
func (o *Oracle) wrote(b []byte) {
	if len(b) < 2 {
		return
	}
	x, err := consensus.UnmarshalMessage(uint16(b[0])<<8|uint16(b[1]), b[2:])
	if v, ok := x.(*consensus.VoteMessage); ok && err == nil {
		name := "-"
		if v.BlockPartSetIDAndNTSVoteCount != nil {
			if b := o.n.W.byPSID[psidKey(v.BlockPartSetIDAndNTSVoteCount.ID())]; b != nil {
				name = b.Name
			}
		}
		o.got[seen{slot{v.Height, v.Round, v.Type}, name}] |= 1 << o.n.Me
	}
}

func (o *Oracle) voted(s slot, name string, b *Blk) {
	n := o.n
	if p, ok := o.vote[s]; ok && p != name {
		n.bad("double voting: %v of h%d r%d for %s and for %s", s.t, s.h, s.r, p, name)
	}
	o.vote[s] = name
	before := map[seen]int{}
	for k, m := range o.got {
		if k.slot == s {
			m &^= 1 << n.Me
		}
		before[k] = m
	}
	o.got[seen{s, name}] |= 1 << n.Me
	if s.h != n.Height() {
		n.bad("votes at h%d instead of h%d", s.h, n.Height())
	}
	var lock *seen
	for i := range o.locks {
		l := &o.locks[i]
		if l.h == s.h && l.r < s.r && (lock == nil || lock.r < l.r) {
			lock = l
		}
	}
	if s.t == Prevote {
		if lock != nil && lock.b != name {
			free := false
			for k, m := range before {
				if k.h == s.h && k.t == Prevote && k.r > lock.r && k.r <= s.r && k.b != lock.b && bits(m)*3 > 2*n.W.N {
					free = true
				}
			}
			if !free {
				n.bad("prevotes %s in r%d after it precommitted %s in r%d, though no other got two thirds of the prevotes since", name, s.r, lock.b, lock.r)
			}
		}
		if name != "-" && !(lock != nil && lock.b == name) {
			locked := false
			for k := range o.got {
				// it may be locked on a block which got two thirds
				locked = locked || k.h == s.h && k.t == Prevote && k.b == name && k.r < s.r && o.quorum(k)
			}
			if !locked {
				if !o.valid[name] {
					n.bad("prevotes %s which it did not find valid", name)
				}
				if !o.props[seen{slot{s.h, s.r, 0}, name}] {
					n.bad("prevotes %s in r%d where the proposer did not propose it", name, s.r)
				}
				if b.Prop != n.W.proposer(s.h, s.r) {
					n.bad("prevotes %s in r%d though it is of another proposer and was not near two thirds before", name, s.r)
				}
			}
		}
		return
	}
	if name == "-" {
		return
	}
	if !o.quorum(seen{slot{s.h, s.r, Prevote}, name}) {
		n.bad("precommits %s in r%d without two thirds of the prevotes", name, s.r)
	}
	o.locks = append(o.locks, seen{s, name})
}

func (o *Oracle) final(b *Blk) {
	ok := false
	for k := range o.got {
		if k.h == b.H && k.t == Precommit && k.b == b.Name && o.quorum(k) {
			ok = true
		}
	}
	if !ok {
		o.n.bad("finalizes %s without two thirds of the precommits of a round", b.Name)
	}
}

func (o *Oracle) key() []string {
	var l []string
	for k, v := range o.vote {
		l = append(l, fmt.Sprint("v", k, v))
	}
	for k, v := range o.got {
		l = append(l, fmt.Sprint("g", k, v))
	}
	for k := range o.props {
		l = append(l, fmt.Sprint("p", k))
	}
	for k := range o.valid {
		l = append(l, "b"+k)
	}
	sort.Strings(l)
	return l
}

// Local is a node and what judges it.
type Local struct {
	*Node
	O *Oracle
}

// Block gives the block of a name at the height which is decided.
func (l *Local) Block(name string) *Blk {
	if name == "-" {
		return nil
	}
	h := l.Height()
	prop := l.Me
	switch name[0] {
	case 'A', 'X', 'U':
		prop = l.W.proposer(h, 0)
	case 'B':
		prop = l.W.proposer(h, 1)
	case 'E':
		prop = l.W.proposer(h, 2)
	}
	return l.W.Block(h, prop, name, l.Last().id)
}

// NewLocal starts a node.
func (w *World) NewLocal(me int) *Local {
	n := w.NewNode(me)
	l := &Local{n, n.oracle()}
	n.Start()
	return l
}

// Do makes an event happen and tells how many effects it had.
func (l *Local) Do(e Ev) int {
	n, w := l.Node, l.W
	h := n.Height()
	n.effects = 0
	n.limit = -1
	if e.Crash > 0 {
		n.limit = e.Crash
	}
	switch e.K {
	case 'P':
		b := l.Block(e.X)
		by := e.By
		if by < 0 {
			by = w.proposer(h, e.R)
			l.O.props[seen{slot{h, e.R, 0}, e.X}] = true
		}
		n.Recv(consensus.ProtoProposal, w.Proposal(by, h, e.R, b, e.Pol), peer(by))
		for i := range b.part {
			n.Recv(consensus.ProtoBlockPart, w.Part(b, i), peer(by))
		}
	case 'D':
		b := l.Block(e.X)
		for i := range b.part {
			n.Recv(consensus.ProtoBlockPart, w.Part(b, i), peer(0))
		}
	case 'V':
		l.votes(e)
	case 'I':
		if n.Pending() {
			for _, p := range n.pend {
				if !p.done && !p.cancelled {
					if p.b.Valid() {
						l.O.valid[p.b.Name] = true
					}
					break
				}
			}
			n.Work()
		}
	case 'F':
		n.Fly()
	case 'T':
		n.Tick()
	case 'C':
		n.Crash(e.Lost)
		return 0
	}
	c := n.effects
	if e.Crash > 0 {
		n.Crash(e.Lost)
	}
	n.limit = -1
	return c
}

// votes of others; X has a name for each voter, or one for all.
func (l *Local) votes(e Ev) {
	h := l.Height()
	var others []int
	if e.By >= 0 {
		others = []int{e.By}
	} else {
		for i := 0; i < l.W.N; i++ {
			if i != l.Me {
				others = append(others, i)
			}
		}
	}
	names := strings.Split(e.X, ",")
	for i, v := range others {
		x := names[0]
		if len(names) > 1 {
			if i >= len(names) {
				break
			}
			x = names[i]
		}
		if x == "" {
			continue
		}
		// names with ' are votes with another time
		y := strings.TrimSuffix(x, "'")
		b := l.Block(y)
		s := seen{slot{h, e.R, e.T}, y}
		l.O.got[s] |= 1 << v
		l.Recv(consensus.ProtoVote, l.W.Vote(v, e.T, h, e.R, b, len(x)-len(y)), peer(v))
	}
}

// Settle lets the block manager finish what it is asked for.
func (l *Local) Settle() {
	for i := 0; l.Pending() && i < 20; i++ {
		l.Do(Ev{K: 'I'})
	}
}

// Replay makes events happen to a new node.
func (w *World) Replay(me int, evs []Ev) *Local {
	l := w.NewLocal(me)
	for _, e := range evs {
		l.Do(e)
		if len(l.Bad) > 0 {
			break
		}
	}
	return l
}

func show(evs []Ev) string {
	var s []string
	for _, e := range evs {
		s = append(s, e.String())
	}
	return strings.Join(s, "; ")
}

// Decides checks that the node goes on when the others agree.
func (l *Local) Decides(round int32) {
	h := l.Height()
	target, many, at := "", 0, round
	for k := range l.O.got {
		m := l.O.got[k]
		if l.O.vote[k.slot] != k.b {
			m &^= 1 << l.Me // not sent
		}
		if k.h == h && k.t == Precommit && k.b != "-" && bits(m)*3 > 2*l.W.N && k.b != target {
			target = k.b
			many++
			at = k.r
		}
	}
	two := 0
	for k, m := range l.O.got {
		for o, n := range l.O.got {
			if k.slot == o.slot && k.b != o.b {
				two |= m & n
			}
		}
	}
	if many > 1 || bits(two)*3 >= l.W.N {
		return // more than a third of the validators is not honest
	}
	if target == "" {
		target = "A"
		for _, k := range l.O.locks {
			if k.h == h {
				target = k.b
			}
		}
	}
	if at != round {
		// it was decided: nobody has to vote again, but to tell it again
		for v := 0; v < l.W.N; v++ {
			if l.O.got[seen{slot{h, at, Precommit}, target}]&(1<<v) != 0 {
				l.Do(Ev{K: 'V', R: at, T: Precommit, X: target, By: v})
			}
		}
	} else {
		l.Do(Ev{K: 'V', R: round, T: Precommit, X: target, By: -1})
	}
	l.Do(Ev{K: 'D', X: target})
	l.Settle()
	if len(l.Bad) > 0 {
		return
	}
	if l.Height() != h+1 || l.Last().Name != target {
		l.bad("does not finalize %s though the others precommitted it in r%d (height %d of %d)", target, at, l.Height(), h+1)
		return
	}
	l.rounds(h+1, "next height")
}

// rounds checks that a block is decided when all others are honest and on time.
func (l *Local) rounds(h int64, what string) {
	for r := int32(0); r < 4; r++ {
		for i := 0; i < 3 && l.Status().Round < r; i++ {
			l.Do(Ev{K: 'T'})
			l.Settle()
		}
		if l.Status().Round > r {
			continue
		}
		x := map[int32]string{0: "A", 1: "B", 2: "E"}[r]
		if l.W.proposer(h, r) == l.Me {
			l.Settle()
			x = l.O.prop[slot{h, r, 0}]
			if x == "" {
				l.bad("%s: does not propose in r%d", what, r)
				return
			}
		} else {
			if x == "" {
				continue
			}
			l.Do(Ev{K: 'P', R: r, X: x, By: -1, Pol: -1})
			l.Settle()
		}
		if v := l.O.vote[slot{h, r, Prevote}]; v != x {
			l.bad("%s: prevotes %q in r%d instead of %s", what, v, r, x)
			return
		}
		l.Do(Ev{K: 'V', R: r, T: Prevote, X: x, By: -1})
		l.Settle()
		if v := l.O.vote[slot{h, r, Precommit}]; v != x {
			l.bad("%s: precommits %q in r%d instead of %s", what, v, r, x)
			return
		}
		l.Do(Ev{K: 'V', R: r, T: Precommit, X: x, By: -1})
		l.Settle()
		if l.Height() != h+1 || l.Last().Name != x {
			l.bad("%s: %s is not finalized in r%d", what, x, r)
		}
		return
	}
	l.bad("%s: no round is decided", what)
}

// Bounds of an exploration.
type Bounds struct {
	Me      int
	Depth   int
	Rounds  int32
	Crashes int
	Fine    bool     // votes one by one
	Names   []string // blocks which others vote for
	Props   []string // blocks which are proposed
	Bogus   bool     // wrong proposers, blocks which are not valid
	Prefix  []Ev
	Pols    bool
	Max     int
}

func (b Bounds) events(l *Local, crashes int) []Ev {
	var r []Ev
	h := l.Height()
	st := l.Status()
	if h > 1 {
		return nil
	}
	names := append([]string(nil), b.Names...)
	mine := map[string]bool{}
	for _, x := range l.O.prop {
		if x[0] == 'M' && !mine[x] {
			mine[x] = true
			names = append(names, x)
		}
	}
	sort.Strings(names)
	if l.W.proposer(h, st.Round) != l.Me {
		for _, x := range b.Props {
			blk := l.Block(x)
			if blk.Prop == l.W.proposer(h, st.Round) {
				r = append(r, Ev{K: 'P', R: st.Round, X: x, By: -1, Pol: -1})
			} else if b.Bogus {
				r = append(r, Ev{K: 'P', R: st.Round, X: x, By: -1, Pol: -1})
				r = append(r, Ev{K: 'P', R: st.Round, X: x, By: blk.Prop, Pol: -1})
			}
			if b.Pols {
				for p := int32(0); p < st.Round; p++ {
					r = append(r, Ev{K: 'P', R: st.Round, X: x, By: -1, Pol: p})
				}
			}
		}
	}
	for _, x := range b.Props {
		r = append(r, Ev{K: 'D', X: x})
	}
	for rd := int32(0); rd < b.Rounds; rd++ {
		for t := Prevote; t <= Precommit; t++ {
			if b.Fine {
				for v := 0; v < l.W.N; v++ {
					if v == l.Me {
						continue
					}
					for _, x := range append([]string{"-"}, names...) {
						if l.O.got[seen{slot{h, rd, t}, x}]&(1<<v) != 0 {
							x += "'"
						}
						// voters are alike: one votes after those before it did
						r = append(r, Ev{K: 'V', R: rd, T: t, X: x, By: v})
					}
				}
				continue
			}
			for _, x := range append([]string{"-"}, names...) {
				r = append(r, Ev{K: 'V', R: rd, T: t, X: x, By: -1})
				r = append(r, Ev{K: 'V', R: rd, T: t, X: x + "," + x, By: -1})
			}
			mix := append([]string{"-"}, names...)
			for len(mix) < 3 {
				mix = append(mix, mix[len(mix)-1])
			}
			r = append(r, Ev{K: 'V', R: rd, T: t, X: strings.Join(mix[:3], ","), By: -1})
		}
	}
	if l.Pending() {
		r = append(r, Ev{K: 'I'})
	}
	if l.CanFly() {
		r = append(r, Ev{K: 'F'})
	}
	if len(l.Clock.Set(l.Me)) > 0 {
		r = append(r, Ev{K: 'T'})
	}
	if crashes < b.Crashes {
		r = append(r, Ev{K: 'C'}, Ev{K: 'C', Lost: true})
	}
	return r
}

type way struct {
	evs     []Ev
	crashes int
}

// Explore runs all sequences of events within bounds, and checks all a node does.
func (w *World) Explore(ctx *mc.Ctx, b Bounds) {
	visited := map[[2]uint64]bool{}
	key := func(l *Local, crashes int) [2]uint64 { return l.State(l.O.key(), crashes) }
	start := w.Replay(b.Me, b.Prefix)
	level := []way{{append([]Ev(nil), b.Prefix...), 0}}
	visited[key(start, 0)] = true
	fail := func(l *Local, evs []Ev) bool {
		if len(l.Bad) > 0 {
			ctx.Fail("v%d: %s: %s", b.Me, show(evs), strings.Join(l.Bad, "; "))
			return true
		}
		return false
	}
	if fail(start, b.Prefix) {
		return
	}
	start.Stop()
	for depth := 0; depth < b.Depth && len(level) > 0; depth++ {
		var next []way
		for _, p := range level {
			if ctx.Fails() > 5 {
				return
			}
			ctx.Case("v%d: %s", b.Me, show(p.evs))
			l := w.Replay(b.Me, p.evs)
			evs := b.events(l, p.crashes)
			l.Stop()
			for i := 0; i < len(evs); i++ {
				e := evs[i]
				crashes := p.crashes
				if e.K == 'C' || e.Crash > 0 {
					crashes++
				}
				l := w.Replay(b.Me, p.evs)
				c := l.Do(e)
				ctx.Trans(1)
				q := append(append([]Ev(nil), p.evs...), e)
				if fail(l, q) {
					l.Stop()
					continue
				}
				if e.Crash == 0 && e.K != 'C' && p.crashes < b.Crashes {
					for k := 1; k < c; k++ {
						x := e
						x.Crash = k
						evs = append(evs, x)
						x.Lost = true
						evs = append(evs, x)
					}
				}
				k := key(l, crashes)
				if visited[k] {
					l.Stop()
					continue
				}
				visited[k] = true
				ctx.NewState(fmt.Sprint(b.Me, k))
				if l.Height() == 1 && l.Status().Height == 1 {
					next = append(next, way{q, crashes})
				}
				if l.Height() == 1 {
					r := b.Rounds
					if x := l.Status().Round; x >= r {
						r = x + 1
					}
					l.Decides(r)
				} else {
					l.Settle()
					l.rounds(l.Height(), "next height")
				}
				fail(l, q)
				l.Stop()
				if b.Max > 0 && len(visited) > b.Max {
					ctx.Note("cut")
					return
				}
			}
		}
		level = next
	}

}

func peer(i int) peerID { return peerID{node.Wallet(i).Address().ID()} }
