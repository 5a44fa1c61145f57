package hv

import (
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/common/crypto"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/state"
	"vgo/mc"
)

// Info, Status and Net are what the queries of the validators tell.
type Info struct {
	Key              int
	Grade, Name, Url string
}
type Status struct{ Flags, NonVotes, Enabled int64 }
type Net struct {
	Dec                  bool
	Period, Allow, Count int64
}

// Val is the reference model of the validators; owners and nodes are addresses.
type Val struct {
	Infos           map[string]Info
	St              map[string]Status
	Owner           map[string]string // of a node, of each which ever was registered
	Main, Sub, Disq []string
	Par             Net // what the next term takes
	NS              Net
	Idx             int // where the search among the sub validators goes on
	VL              []string
	Keys            map[string]int // BTP keys of nodes
	Nets            int64          // open BTP networks
	Grants          bool           // the governance also puts nodes into the set by hand, which may be anyone's
}

// PubKey gives the n-th key of a node; there is no key -1.
func PubKey(n int) []byte {
	if n < 0 {
		return []byte{2, 1}
	}
	sk, err := crypto.ParsePrivateKey(append(make([]byte, 30), 1, byte(n+1)))
	mc.Must(err)
	return sk.PublicKey().SerializeCompressed()
}

var nodes = map[int]string{}

// Node gives the address of the n-th node.
func Node(n int) string {
	if nodes[n] == "" {
		pk, err := crypto.ParsePublicKey(PubKey(n))
		mc.Must(err)
		nodes[n] = common.NewAccountAddressFromPublicKey(pk).String()
	}
	return nodes[n]
}

// NewVal is the model of a chain which starts with these nodes.
func NewVal(vl []int) *Val {
	v := &Val{Infos: map[string]Info{}, St: map[string]Status{}, Owner: map[string]string{}, Keys: map[string]int{}, Par: Net{Period: 30, Allow: 20},
		Main: []string{}, Sub: []string{}, Disq: []string{}, VL: []string{}}
	for _, n := range vl {
		v.VL = append(v.VL, Node(n))
	}
	return v
}

func (v *Val) Clone() *Val {
	if v == nil {
		return nil
	}
	c := *v
	c.Infos, c.St, c.Owner, c.Keys = cp(v.Infos), cp(v.St), cp(v.Owner), cp(v.Keys)
	return &c // lists are never changed in place
}

func index(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

func without(l []string, i int) []string {
	return append(append([]string{}, l[:i]...), l[i+1:]...)
}

func with(l []string, i int, s string) []string {
	r := append([]string{}, l...)
	r[i] = s
	return r
}

// swapped removes an entry as the lists of owners do it: the last one takes its place.
func swapped(l []string, s string) []string {
	n := len(l) - 1
	if i := index(l, s); i < n {
		l = with(l, i, l[n])
	}
	return append([]string{}, l[:n]...)
}

func (v *Val) node(owner string) string { return Node(v.Infos[owner].Key) }

func (v *Val) fit(node string) bool {
	_, ok := v.Keys[node]
	return ok || v.Nets == 0
}

// next takes up to n nodes of the sub validators which are enabled and not in busy, in turn.
func (v *Val) next(busy []string, n int) (r []string) {
	if n == 0 || len(v.Sub) == 0 {
		return nil
	}
	i := v.Idx
	if i >= len(v.Sub) {
		i = 0
	}
	for range v.Sub {
		if len(r) == min(n, len(v.Sub)) {
			break
		}
		o := v.Sub[i]
		if index(busy, v.node(o)) < 0 && v.St[o].Flags == 0 && v.fit(v.node(o)) {
			r = append(r, v.node(o))
		}
		i = (i + 1) % len(v.Sub)
	}
	v.Idx = i
	return
}

func (v *Val) owner(node string) string {
	if o, ok := v.Owner[node]; ok {
		return o
	}
	return "nil"
}

func removed(owner, node, why string) string {
	return Ev("ActiveValidatorRemoved(Address,Address,str)", owner, node, why)
}
func added(owner, node string) string {
	return Ev("ActiveValidatorAdded(Address,Address)", owner, node)
}
func count(o, n int) string { return Ev("ActiveValidatorCountChanged(int,int)", o, n) }

// needVote tells whether the votes are checked in the block of the model.
func (m *Econ) needVote() bool {
	v := m.V
	return v != nil && v.NS.Dec && m.Started() && v.NS.Period > 0 && (m.H-m.Start)%m.Period%v.NS.Period == 0
}

// Ballot is who voted for the block before.
type Ballot struct {
	Node string
	Yes  bool
}

// valBegin does what the base transaction does for the validators; a query does not choose validators.
func (m *Econ) valBegin(check bool, votes []Ballot, query bool) (evs []string) {
	v := m.V
	if m.NeedBase() {
		if !v.NS.Dec && m.Rev >= 4 && v.Par.Count >= 1 && int64(len(v.Main)+len(v.Sub)) >= v.Par.Count {
			v.NS.Dec = true
			evs = append(evs, Ev("Decentralized(int)", v.Par.Count))
		}
		if v.NS.Dec {
			v.NS.Period, v.NS.Allow, v.NS.Count = v.Par.Period, v.Par.Allow, v.Par.Count
			if !query {
				evs = append(evs, v.elect()...)
			}
		}
	}
	if check && !query {
		evs = append(evs, v.judge(votes)...)
	}
	return
}

func (v *Val) elect() (evs []string) {
	n := int(v.NS.Count)
	l := []string{}
	for _, o := range v.Main {
		if v.fit(v.node(o)) && len(l) < n {
			l = append(l, v.node(o))
		}
	}
	l = append(l, v.next(nil, n-len(l))...)
	for _, x := range v.VL {
		if index(l, x) < 0 {
			evs = append(evs, removed(v.owner(x), x, "termchange"))
		}
	}
	for _, x := range l {
		if index(v.VL, x) < 0 {
			evs = append(evs, added(v.owner(x), x))
		}
	}
	if len(l) != len(v.VL) {
		evs = append(evs, count(len(v.VL), len(l)))
	}
	v.VL = l
	return
}

func (v *Val) judge(votes []Ballot) (evs []string) {
	out := map[string]string{}
	for _, b := range votes {
		o, ok := v.Owner[b.Node]
		s := v.St[o]
		if !ok || s.Flags != 0 {
			continue
		}
		s.NonVotes++
		if b.Yes {
			s.NonVotes = 0
		}
		if v.Infos[o].Grade == "sub" && s.NonVotes > v.NS.Allow {
			s.Flags = 1
			out[b.Node] = o
			evs = append(evs, Ev("ActiveValidatorPenalized(Address,Address)", o, b.Node))
		}
		v.St[o] = s
	}
	l := v.VL
	var left []string
	for _, x := range l {
		if out[x] != "" {
			left = append(left, x)
		}
	}
	in := v.next(l, len(left))
	for i, x := range left {
		evs = append(evs, removed(out[x], x, "penalized"))
		p := index(v.VL, x)
		if i < len(in) {
			v.VL = with(v.VL, p, in[i])
			evs = append(evs, added(v.Owner[in[i]], in[i]))
		} else {
			v.VL = without(v.VL, p)
		}
	}
	if len(l) != len(v.VL) {
		evs = append(evs, count(len(l), len(v.VL)))
	}
	return
}

// valDo applies a transaction about validators.
func (m *Econ) valDo(o Op) (ok bool, evs []string) {
	v := m.V
	gov := o.From == Gov
	eoa := o.From[0] == 'h'
	info, known := v.Infos[o.To]
	if m.Rev < 4 && o.K[0] == 'v' || m.Rev < 5 && o.K == "btpopen" {
		return
	}
	switch o.K {
	case "vreg":
		grade, name, url := o.Str[0], o.Str[1], ""
		if len(o.Str) > 2 {
			url = o.Str[2]
		}
		if !gov || known || o.Node < 0 || grade != "main" && grade != "sub" || len(name) > 100 || len(url) > 200 || v.Owner[Node(o.Node)] != "" {
			return
		}
		v.Infos[o.To] = Info{o.Node, grade, name, url}
		v.St[o.To] = Status{}
		v.Owner[Node(o.Node)] = o.To
		if grade == "main" {
			v.Main = append(append([]string{}, v.Main...), o.To)
		} else {
			v.Sub = append(append([]string{}, v.Sub...), o.To)
		}
		if m.Rev >= 6 {
			v.Keys[Node(o.Node)] = o.Node
		}
	case "vunreg":
		s := v.St[o.To]
		if !known || !gov && o.From != o.To || o.To[0] == 'c' {
			return
		}
		if s.Flags&2 != 0 {
			return true, nil
		}
		s.Flags |= 2
		v.St[o.To] = s
		if info.Grade == "main" {
			v.Main = swapped(v.Main, o.To)
		} else {
			v.Sub = swapped(v.Sub, o.To)
		}
		v.Disq = append(append([]string{}, v.Disq...), o.To)
		x := v.node(o.To)
		if i := index(v.VL, x); i >= 0 {
			n := len(v.VL)
			v.VL = without(v.VL, i)
			evs = append(evs, removed(o.To, x, "unregistered"), count(n, n-1))
		}
	case "vinfo":
		info, known = v.Infos[o.From]
		if !eoa {
			return
		}
		seen := map[string]bool{}
		for i := 0; i < len(o.Str); i += 2 {
			k, s := o.Str[i], o.Str[i+1]
			switch {
			case !known || seen[k]:
				return
			case k == "name" && len(s) <= 100:
				info.Name = s
			case k == "url" && len(s) <= 200:
				info.Url = s
			default:
				return
			}
			seen[k] = true
		}
		if len(o.Str) > 0 {
			v.Infos[o.From] = info
		}
	case "vkey":
		info, known = v.Infos[o.From]
		if !eoa || !known || v.St[o.From].Flags&2 != 0 || o.Node < 0 {
			return
		}
		x, y := v.node(o.From), Node(o.Node)
		if x != y {
			if v.Owner[y] != "" {
				return
			}
			i := index(v.VL, x)
			if i >= 0 && index(v.VL, y) >= 0 {
				// the new node is there without being registered: the set stays, up to the next term
				if m.Rev < 5 {
					return
				}
				i = -1
			}
			info.Key = o.Node
			v.Infos[o.From] = info
			v.Owner[y] = o.From
			if i >= 0 {
				v.VL = with(v.VL, i, y)
				evs = append(evs, removed(o.From, x, "pubkeychange"), added(o.From, y))
			}
		}
		if m.Rev >= 5 {
			v.Keys[y] = o.Node
		}
	case "venable":
		s := v.St[o.To]
		if !known || !gov && o.From != o.To || o.To[0] == 'c' || s.Flags&2 != 0 {
			return
		}
		if s.Flags != 0 {
			s.Enabled++
			if gov {
				s.Enabled = 0
			} else if s.Enabled > 3 {
				return
			}
			s.Flags = 0
		}
		s.NonVotes = 0
		v.St[o.To] = s
	case "vcount":
		if !gov || o.N < 1 || o.N > 1000 {
			return
		}
		v.Par.Count = o.N
	case "vparams":
		if !gov || o.N < 0 || o.D < 0 {
			return
		}
		v.Par.Period, v.Par.Allow = o.N, o.D
	case "grant":
		if !gov || o.To[0] == 'c' {
			return
		}
		if index(v.VL, o.To) < 0 {
			v.VL = append(append([]string{}, v.VL...), o.To)
		}
	case "revoke":
		i := index(v.VL, o.To)
		if !gov || o.To[0] == 'c' || i < 0 || len(v.VL) == 1 {
			return
		}
		v.VL = without(v.VL, i)
	case "setrev":
		if !gov || o.N > 7 || o.N < m.Rev {
			return
		}
		for r := m.Rev + 1; r <= o.N; r++ {
			if r >= 5 {
				for _, x := range append(append([]string{}, v.Main...), v.Sub...) {
					v.Keys[v.node(x)] = v.Infos[x].Key
				}
			}
		}
		m.Rev = o.N
	case "btpopen":
		for _, x := range v.VL {
			if _, has := v.Keys[x]; !has && v.Nets == 0 {
				return
			}
		}
		if !gov || len(v.Keys) == 0 {
			return
		}
		if v.Nets++; v.Nets == 1 {
			evs = append(evs, Ev("BTPNetworkTypeActivated(str,int)", "eth", 1))
		}
		evs = append(evs, Ev("BTPNetworkOpened(int,int)", 1, v.Nets))
	default:
		panic(o.K)
	}
	return true, evs
}

// valTx gives the method of an operation about validators.
func valTx(o Op) (method string, params mc.J) {
	params = mc.J{}
	switch o.K {
	case "vreg":
		method = "registerValidator"
		params = mc.J{"owner": o.To, "nodePublicKey": "0x" + hex.EncodeToString(PubKey(o.Node)), "grade": o.Str[0], "name": o.Str[1]}
		if len(o.Str) > 2 {
			params["url"] = o.Str[2]
		}
	case "vunreg":
		method, params = "unregisterValidator", mc.J{"owner": o.To}
	case "venable":
		method, params = "enableValidator", mc.J{"owner": o.To}
	case "vinfo":
		l := []any{}
		for i := 0; i < len(o.Str); i += 2 {
			l = append(l, mc.J{"key": o.Str[i], "value": o.Str[i+1]})
		}
		method, params = "setValidatorInfo", mc.J{"values": l}
	case "vkey":
		method, params = "setNodePublicKey", mc.J{"pubKey": "0x" + hex.EncodeToString(PubKey(o.Node))}
	case "vcount":
		method, params = "setActiveValidatorCount", mc.J{"count": hexi(o.N)}
	case "vparams":
		method, params = "setBlockVoteCheckParameters", mc.J{"period": hexi(o.N), "allowance": hexi(o.D)}
	case "grant":
		method, params = "grantValidator", mc.J{"address": o.To}
	case "revoke":
		method, params = "revokeValidator", mc.J{"address": o.To}
	case "setrev":
		method, params = "setRevision", mc.J{"code": hexi(o.N)}
	case "btpopen":
		method, params = "openBTPNetwork", mc.J{"networkTypeName": "eth", "name": "n", "owner": Alice}
	}
	return
}

// vote makes the votes of the block before out of an operation: who of the list did not vote.
func (m *Econ) vote(c *mc.Chain, o *Op) (*mc.Vote, []Ballot) {
	if m.V == nil {
		return nil, nil
	}
	l := m.V.VL
	if o != nil && o.Str != nil {
		l = o.Str
	}
	r := make([]Ballot, len(l))
	vs := make([]module.Validator, len(l))
	x := &mc.Vote{Voted: make([]bool, len(l))}
	for i, n := range l {
		v, err := state.ValidatorFromAddress(mc.Addr(n))
		mc.Must(err)
		vs[i] = v
		r[i] = Ballot{n, true}
		if o != nil {
			for _, id := range o.IDs {
				if int(id) == i {
					r[i].Yes = false
				}
			}
		}
		x.Voted[i] = r[i].Yes
	}
	vl, err := state.ValidatorSnapshotFromSlice(c.DB, vs)
	mc.Must(err)
	x.Voters = vl
	if len(l) > 0 {
		x.Proposer = mc.Addr(l[0])
	}
	return x, r
}

// valCheck compares the validators of the chain with the model; n is the model in the next block.
func (w *World) valCheck(ctx *mc.Ctx, n *Econ, ask func(method string, params mc.J, want any)) {
	type D = map[string]any
	v := w.M.V
	var l []string
	for i := 0; i < w.B.VL.Len(); i++ {
		x, _ := w.B.VL.Get(i)
		l = append(l, x.Address().String())
	}
	ctx.Expect(strings.Join(l, " "), strings.Join(v.VL, " "), "block %d: the validators", w.B.H)
	vl := []any{}
	for _, x := range v.VL {
		vl = append(vl, x)
	}
	ask("getValidators", nil, vl)
	if n.Rev < 4 {
		ask("getActiveValidatorCount", nil, "an error")
		return
	}
	v = n.V
	ask("getActiveValidatorCount", nil, v.Par.Count)
	ask("getBlockVoteCheckParameters", nil, D{"height": n.H, "blockVoteCheckPeriod": v.Par.Period, "nonVoteAllowance": v.Par.Allow})
	if v.NS.Dec {
		ask("getNetworkStatus", nil, D{"height": n.H, "mode": 1, "termStart": n.Start + n.Seq()*n.Period, "blockVoteCheckPeriod": v.NS.Period,
			"nonVoteAllowance": v.NS.Allow, "activeValidatorCount": v.NS.Count})
	} else {
		ask("getNetworkStatus", nil, "an error")
	}
	info := func(o string) D {
		i := v.Infos[o]
		return D{"owner": o, "nodePublicKey": PubKey(i.Key), "node": v.node(o), "grade": i.Grade, "name": i.Name, "url": i.Url}
	}
	status := func(o string) D {
		s := v.St[o]
		return D{"flags": s.Flags, "nonVotes": s.NonVotes, "enableCount": 3 - s.Enabled}
	}
	plus := func(a D, b D) D {
		r := cp(a)
		for k, x := range b {
			r[k] = x
		}
		return r
	}
	for _, o := range []string{Own1, Own2, Alice, Bob, Mgr, Gov} {
		p := mc.J{"owner": o}
		if _, ok := v.Infos[o]; !ok {
			ask("getValidatorInfo", p, "an error")
			ask("getValidatorStatus", p, "an error")
			continue
		}
		h := D{"height": n.H}
		ask("getValidatorInfo", p, plus(info(o), h))
		ask("getValidatorStatus", p, plus(status(o), h))
	}
	all := append(append([]string{}, v.Main...), v.Sub...)
	for g, l := range map[string][]string{"main": v.Main, "sub": v.Sub, "all": all} {
		r := []any{}
		for _, o := range l {
			r = append(r, o)
		}
		ask("getValidatorsOf", mc.J{"grade": g}, D{"height": n.H, "grade": g, "validators": r})
	}
	ask("getValidatorsOf", mc.J{"grade": "x"}, "an error")
	for method, l := range map[string][]string{"getValidatorsInfo": all, "getDisqualifiedValidatorsInfo": v.Disq} {
		a, b, c := []any{}, []any{}, []any{}
		for _, o := range l {
			a = append(a, info(o))
			b = append(b, plus(status(o), D{"owner": o}))
			c = append(c, plus(info(o), status(o)))
		}
		for k, r := range map[string][]any{"info": a, "status": b, "all": c} {
			ask(method, mc.J{"dataType": k}, D{"height": n.H, "validators": r})
		}
		ask(method, mc.J{"dataType": "none"}, "an error")
	}
	if n.Rev >= 5 {
		for i := 0; i < 8; i++ {
			want := []byte{}
			if k, ok := v.Keys[Node(i)]; ok {
				want = PubKey(k)
			}
			ask("getBTPPublicKey", mc.J{"address": Node(i), "name": "ecdsa/secp256k1"}, want)
		}
	}
}

// sound checks what the specification promises about the validators.
func (v *Val) sound() error {
	seen := map[string]bool{}
	for _, x := range v.VL {
		if seen[x] {
			return fmt.Errorf("the node %s is twice among the validators %v", x, v.VL)
		}
		seen[x] = true
		if o := v.Owner[x]; v.NS.Dec && !v.Grants && o != "" && v.node(o) == x && v.St[o].Flags&2 != 0 {
			return fmt.Errorf("the validators %v have the node of %s, which is disqualified", v.VL, o)
		}
	}
	if len(v.Main)+len(v.Sub)+len(v.Disq) != len(v.Infos) {
		return fmt.Errorf("%d main, %d sub and %d disqualified of %d", len(v.Main), len(v.Sub), len(v.Disq), len(v.Infos))
	}
	for o, s := range v.St {
		if s.Enabled > 3 {
			return fmt.Errorf("%s has %v", o, s)
		}
		if (s.Flags&2 != 0) != (index(v.Disq, o) >= 0) {
			return fmt.Errorf("%s has %v", o, s)
		}
	}
	return nil
}
