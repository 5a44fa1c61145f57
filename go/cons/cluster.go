package cons

import (
	"fmt"
	"strings"

	"github.com/icon-project/goloop/consensus"

	"vgo/mc"
)

// Dev is a thing which does not go as usual: at which step, what.
type Dev struct {
	Step int
	What byte // h: the message is held until nothing else is to do, H: until timers ran; t: timers of a node run; c, l: a node crashes (unsynced is kept, lost); i: a node is cut off for some steps; w: the block manager of a node is late
	N    int
}

func (d Dev) String() string { return fmt.Sprintf("step %d: %c %d", d.Step, d.What, d.N) }

type packet struct {
	from, to int
	m        Msg
	held     byte
}

// Cluster is all nodes of a network.
type Cluster struct {
	w     *World
	l     []*Local
	q     []packet
	all   []packet // what was ever sent
	final map[int64]*Blk
	cut   int // who is cut off
	until int
	late  map[int]bool
	step  int
	log   []string
	Bad   []string
	Width int // messages which could have been delivered at the last step
	Steps int
}

// NewCluster starts n nodes.
func (w *World) NewCluster() *Cluster {
	c := &Cluster{w: w, final: map[int64]*Blk{}, cut: -1, late: map[int]bool{}}
	for i := 0; i < w.N; i++ {
		n := w.NewNode(i)
		l := &Local{n, n.oracle()}
		c.l = append(c.l, l)
	}
	for i, l := range c.l {
		i := i
		sent, final := l.O.sent, l.O.final
		l.OnSend = func(m Msg) {
			sent(m)
			if m.P == consensus.ProtoVote {
				w.signer[string(m.B)] = i
			}
			for to := range c.l {
				if to != i {
					p := packet{i, to, m, 0}
					c.q = append(c.q, p)
					c.all = append(c.all, p)
				} else if w.N > 1 {
					// others may tell a node what it told before a crash
					c.all = append(c.all, packet{(i + 1) % w.N, i, m, 0})
				}
			}
		}
		l.OnFinal = func(b *Blk) {
			final(b)
			if o := c.final[b.H]; o != nil && o != b {
				c.bad("v%d finalizes %s at height %d, another node %s", i, b.Name, b.H, o.Name)
			}
			c.final[b.H] = b
		}
	}
	for _, l := range c.l {
		l.Start()
	}
	return c
}

func (c *Cluster) bad(f string, a ...any) { c.Bad = append(c.Bad, fmt.Sprintf(f, a...)) }

func (l *Local) note(m Msg) {
	x, err := consensus.UnmarshalMessage(m.P.Uint16(), m.B)
	if err != nil {
		return
	}
	switch v := x.(type) {
	case *consensus.ProposalMessage:
		if b := l.W.byPSID[psidKey(v.BlockPartSetID)]; b != nil {
			l.O.props[seen{slot{v.Height, v.Round, 0}, b.Name}] = true
		}
	case *consensus.VoteMessage:
		l.noteVote(v)
	case *consensus.VoteListMessage:
		for i := 0; i < v.VoteList.Len(); i++ {
			l.noteVote(v.VoteList.Get(i))
		}
	}
}

func (l *Local) noteVote(v *consensus.VoteMessage) {
	name := "-"
	if v.BlockPartSetIDAndNTSVoteCount != nil {
		if b := l.W.byPSID[psidKey(v.BlockPartSetIDAndNTSVoteCount.ID())]; b != nil {
			name = b.Name
		}
	}
	if i, ok := l.W.signer[string(enc(v))]; ok {
		l.O.got[seen{slot{v.Height, v.Round, v.Type}, name}] |= 1 << i
	}
}

func (c *Cluster) deliver(p packet) {
	l := c.l[p.to]
	l.note(p.m)
	l.Recv(p.m.P, p.m.B, peer(p.from))
	c.collect()
}

func (c *Cluster) collect() {
	for i, l := range c.l {
		for _, b := range l.Bad {
			c.bad("v%d %s", i, b)
		}
		l.Bad = nil
	}
}

func (c *Cluster) blocked(p packet) bool { return c.cut >= 0 && (p.from == c.cut || p.to == c.cut) }

// next does what usually comes next; it tells whether there was something.
func (c *Cluster) next(hold byte) bool {
	for i, l := range c.l {
		if !c.late[i] && l.Pending() {
			l.Do(Ev{K: 'I'})
			c.collect()
			return true
		}
	}
	for i := range c.q {
		p := c.q[i]
		if p.held != 0 || c.blocked(p) {
			continue
		}
		if hold != 0 {
			c.q[i].held = hold
			return true
		}
		c.q = append(c.q[:i:i], c.q[i+1:]...)
		c.deliver(p)
		return true
	}
	return false
}

func (c *Cluster) release(held byte) (any bool) {
	for i := range c.q {
		if c.q[i].held != 0 && (held == 'H' || c.q[i].held == held) {
			c.q[i].held = 0
			any = true
		}
	}
	return
}

// Run goes on until all nodes have a height, or for a number of steps.
func (c *Cluster) Run(devs []Dev, height int64, most int) {
	di := 0
	ticks := 0
	for ; c.step < most && len(c.Bad) == 0; c.step++ {
		done := true
		for _, l := range c.l {
			done = done && l.Height() > height
		}
		if done {
			break
		}
		if c.cut >= 0 && c.step >= c.until {
			c.cut = -1
		}
		hold := byte(0)
		for di < len(devs) && devs[di].Step == c.step {
			d := devs[di]
			di++
			switch d.What {
			case 'h', 'H':
				hold = d.What
			case 't':
				c.l[d.N].Do(Ev{K: 'T'})
			case 'c', 'l':
				c.l[d.N].Crash(d.What == 'l')
				// the others tell it again what they told
				for _, p := range c.all {
					if p.to == d.N {
						c.q = append(c.q, p)
					}
				}
			case 'i':
				c.cut, c.until = d.N, c.step+25
			case 'w':
				c.late[d.N] = true
			}
			c.collect()
		}
		if c.next(hold) {
			continue
		}
		if c.release('h') {
			continue
		}
		if len(c.late) > 0 {
			c.late = map[int]bool{}
			continue
		}
		if c.cut >= 0 && ticks%2 == 1 {
			c.cut = -1
			continue
		}
		ticks++
		if ticks%2 == 0 {
			// what was sent is told again: some of it came when the other had no use for it
			n := 0
			for _, p := range c.all {
				if l := c.l[p.to]; l.Height() <= height {
					c.q = append(c.q, p)
					n++
				}
			}
			if n > 0 {
				continue
			}
		}
		for _, l := range c.l {
			l.Do(Ev{K: 'T'})
		}
		c.collect()
		c.release('H')
	}
	c.Steps = c.step
	if len(c.Bad) == 0 {
		for i, l := range c.l {
			if l.Height() <= height {
				c.bad("v%d is at height %d after %d steps: nodes do not agree on a block", i, l.Height()-1, c.step)
			}
		}
	}
	for _, l := range c.l {
		l.Stop()
	}
}

// Schedules runs the network under all schedules which deviate from the usual one at most devs times.
func (w *World) Schedules(ctx *mc.Ctx, height int64, devs int, kinds string, part, parts int) {
	base := w.NewCluster()
	base.Run(nil, height, 1000)
	if len(base.Bad) > 0 {
		ctx.Fail("%d nodes: %s", w.N, strings.Join(base.Bad, "; "))
		return
	}
	var run func(pre []Dev, from, left, steps int)
	run = func(pre []Dev, from, left, steps int) {
		for s := from; s < steps; s++ {
			for _, k := range kinds {
				for n := 0; n < w.N; n++ {
					if (k == 'h' || k == 'H') && n > 0 {
						break
					}
					if len(pre) == 0 && (s%parts) != part {
						continue
					}
					d := append(append([]Dev(nil), pre...), Dev{s, byte(k), n})
					if ctx.Fails() > 5 {
						return
					}
					ctx.Case("%d nodes: %v", w.N, d)
					c := w.NewCluster()
					c.Run(d, height, 2500)
					ctx.Trans(c.Steps)
					var o []string
					for h := int64(1); h <= height; h++ {
						if b := c.final[h]; b != nil {
							o = append(o, b.Name)
						}
					}
					ctx.Outcome(fmt.Sprint(w.N, o))
					ctx.NewState(fmt.Sprint(w.N, d))
					if len(c.Bad) > 0 {
						ctx.Fail("%d nodes: %v: %s", w.N, d, strings.Join(c.Bad, "; "))
						continue
					}
					if left > 1 {
						run(d, s+1, left-1, min(c.Steps, steps+20))
					}
				}
			}
		}
	}
	run(nil, 0, devs, base.Steps)
}

// Agreement checks, for n validators of which bad may do anything, that nodes which vote by the rules which
// the oracle checks never decide two blocks, in any number of rounds. It tells the number of states.
func Agreement(n, bad int, locks bool) (states int, broken bool) {
	h := n - bad
	q := func(c int) bool { return (c+bad)*3 > 2*n }
	type node struct {
		lock  int8 // 0 none, 2 A, 3 B
		freed bool
	}
	type st struct {
		nodes  [8]node
		decide int8 // bit 2 A, bit 3 B
	}
	canon := func(s st) st {
		for i := 1; i < h; i++ {
			for j := i; j > 0; j-- {
				a, b := s.nodes[j-1], s.nodes[j]
				if b.lock < a.lock || b.lock == a.lock && !b.freed && a.freed {
					s.nodes[j-1], s.nodes[j] = b, a
				}
			}
		}
		return s
	}
	seen := map[st]bool{{}: true}
	todo := []st{{}}
	pow := func(b, e int) int {
		r := 1
		for ; e > 0; e-- {
			r *= b
		}
		return r
	}
	for len(todo) > 0 {
		s := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for pv := 0; pv < pow(4, h); pv++ {
			var v [8]int8
			cnt := [4]int{}
			for i, x := 0, pv; i < h; i++ {
				v[i] = int8(x % 4)
				x /= 4
				cnt[v[i]]++
			}
			polka := func() [4]bool { return [4]bool{false, q(cnt[1]), q(cnt[2]), q(cnt[3])} }
			if locks {
				// votes which the lock forbids come after others which free the node
				var wait []int
				for i := 0; i < h; i++ {
					l := s.nodes[i]
					if l.lock != 0 && !l.freed && v[i] != 0 && v[i] != l.lock {
						wait = append(wait, i)
						cnt[v[i]]--
					}
				}
				for more := true; more && len(wait) > 0; {
					more = false
					var still []int
					was := polka()
					for _, i := range wait {
						free := false
						for z := int8(1); z < 4; z++ {
							free = free || z != s.nodes[i].lock && was[z]
						}
						if free {
							more = true
							cnt[v[i]]++
						} else {
							still = append(still, i)
						}
					}
					wait = still
				}
				if len(wait) > 0 {
					continue
				}
			}
			polkas := polka()
			for pc := 0; pc < pow(3, h); pc++ {
				t := s
				cc := [4]int{}
				good := true
				for i, x := 0, pc; i < h; i++ {
					c := int8(x % 3)
					x /= 3
					if c > 0 {
						c++
						if !polkas[c] {
							good = false
							break
						}
						cc[c]++
						t.nodes[i] = node{c, false}
					} else if l := t.nodes[i].lock; l != 0 {
						for z := int8(1); z < 4; z++ {
							if z != l && polkas[z] {
								t.nodes[i].freed = true
							}
						}
					}
				}
				if !good {
					continue
				}
				for z := int8(2); z < 4; z++ {
					if q(cc[z]) {
						t.decide |= 1 << z
					}
				}
				if t.decide == 12 {
					return len(seen), true
				}
				t = canon(t)
				if !seen[t] {
					seen[t] = true
					todo = append(todo, t)
				}
			}
		}
	}
	return len(seen), false
}
