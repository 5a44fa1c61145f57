package hv

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/common/intconv"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/scoreapi"
	"github.com/icon-project/goloop/service/scoredb"
	"vgo/mc"
)

// Engine runs contracts with a method run(p), where p tells which calls to make, in JSON.
func Engine() *mc.EE {
	ee := &mc.EE{N: 2}
	ee.API = func(code string) *scoreapi.Info {
		return scoreapi.NewInfo([]*scoreapi.Method{
			{Type: scoreapi.Function, Name: "run", Flags: scoreapi.FlagExternal | scoreapi.FlagPayable,
				Inputs: []scoreapi.Parameter{{Name: "p", Type: scoreapi.String}}},
			{Type: scoreapi.Function, Name: "<init>"},
			{Type: scoreapi.Fallback, Name: "fallback", Flags: scoreapi.FlagPayable},
		})
	}
	ee.Code = func(x *mc.Exec) (any, error) {
		if x.Method != "run" {
			return nil, nil
		}
		var l []Fwd
		mc.Must(json.Unmarshal([]byte(x.Params[0].(string)), &l))
		for _, f := range l {
			v := big.NewInt(0)
			if f.Value != "" {
				v.SetString(f.Value, 10)
			}
			params := make([]any, len(f.Params))
			for i, p := range f.Params {
				params[i] = arg(p)
			}
			_, err := x.Call(mc.Addr(f.To), v, x.Limit, f.Method, params)
			if err != nil && !f.Catch {
				return nil, err
			}
		}
		return nil, nil
	}
	return ee
}

// Fwd is a call which a contract makes.
type Fwd struct {
	To, Method, Value string
	Params            []string
	Catch             bool
}

// arg reads i:<int>, b:<0 or 1>, a:<address>, s:<text>
func arg(s string) any {
	switch s[:2] {
	case "i:":
		v, _ := new(big.Int).SetString(s[2:], 10)
		return v
	case "l:":
		r := []any{}
		for _, e := range strings.Split(s[2:], ",") {
			if e != "" {
				r = append(r, arg("i:"+e))
			}
		}
		return r
	case "b:":
		return s[2:] == "1"
	case "x:":
		return []byte(s[2:])
	case "a:":
		return mc.Addr(s[2:]).(*common.Address)
	}
	return s[2:]
}

// Config is how a chain starts.
type Config struct {
	Rev                   int64
	Start                 int64 // the height passed to startRewardIssue in block 1; 0 for none
	Period, Cycle, Limit  int64
	Issue, Budget, Price  Z
	Hoover, Sust, Service Z
	Wallet                Z // of each user
	Mgrs                  []string
	Planets               []Op
	Setup                 []Op
	Vals                  []int // the nodes at the start; none if validators are not of interest
	Grants                bool  // there are operations grant
}

func z0(v Z) Z {
	if v == nil {
		return I(0)
	}
	return v
}

// World is a chain and its model.
type World struct {
	C *mc.Chain
	B *mc.Block
	M *Econ
}

var users = []string{Gov, God, Mgr, Own1, Own2, Alice, Bob}

// All lists the accounts which are compared.
var All = append([]string{System, Treasury, Public, Sustainable, Hoover, Eco, NFT, Service, Proxy}, users...)

func Open(ctx *mc.Ctx, cfg Config) *World {
	c := mc.NewChain(mc.NewDB(), Engine())
	m := &Econ{Rev: cfg.Rev, Bal: map[string]Z{}, Period: cfg.Period, Cycle: cfg.Cycle, Limit: cfg.Limit, Issue: cfg.Issue, Budget: cfg.Budget,
		Price: cfg.Price, APrice: I(0), Total: I(0), Remain: I(0), EcoR: I(0), Lost: I(0), Num: 0, Den: 24, PM: map[string]bool{},
		Planets: map[int64]Planet{}, PR: map[int64]Reward{}, Vars: map[string]Z{}, Gift: I(0), Supply: I(0)}
	vals := []any{mc.User(10).String()}
	if cfg.Vals != nil {
		m.V = NewVal(cfg.Vals)
		m.V.Grants = cfg.Grants
		vals = nil
		for _, x := range m.V.VL {
			vals = append(vals, x)
		}
	}
	acct := func(name, a string, v Z) mc.J {
		m.Bal[a] = z0(v)
		m.Supply = Add(m.Supply, z0(v))
		return mc.J{"name": name, "address": a, "balance": mc.Hex(z0(v))}
	}
	score := func(n int, a string, v Z) mc.J {
		j := acct(fmt.Sprintf("score%d", n), a, v)
		j["score"] = mc.J{"owner": God, "contentType": "application/java", "content": fmt.Sprintf("0x%02x", n)}
		return j
	}
	l := []any{acct("god", God, cfg.Wallet), acct("treasury", Treasury, nil), acct("governance", Gov, cfg.Wallet),
		acct("hoover", Hoover, cfg.Hoover), acct("service", Service, cfg.Service), score(1, NFT, nil), score(2, Proxy, cfg.Wallet), score(3, Sustainable, cfg.Sust),
		score(4, Eco, nil)}
	for i, u := range []string{Mgr, Own1, Own2, Alice, Bob} {
		l = append(l, acct(fmt.Sprintf("u%d", i), u, cfg.Wallet))
	}
	h := mc.J{"usdtPrice": mc.Hex(cfg.Price), "termPeriod": mc.Hex(cfg.Period), "issueReductionCycle": mc.Hex(cfg.Cycle), "issueLimit": mc.Hex(cfg.Limit),
		"issueAmount": mc.Hex(cfg.Issue), "hooverBudget": mc.Hex(cfg.Budget)}
	g := c.Begin(mc.J{"accounts": l, "chain": mc.J{"platform": "havah", "revision": mc.Hex(cfg.Rev), "validatorList": vals,
		"fee": mc.J{"stepPrice": "0x0", "stepLimit": mc.J{"invoke": "0x9502f900", "query": "0x2faf080"}}, "havah": h}, "message": "x", "nid": "0x1"})
	w := &World{c, g, m}
	w.Check(ctx)
	var ops []Op
	if cfg.Start != 0 {
		ops = append(ops, Op{K: "start", From: Gov, A: I(cfg.Start)})
	}
	for _, a := range cfg.Mgrs {
		ops = append(ops, Op{K: "addpm", From: Gov, To: a})
	}
	ops = append(append(ops, cfg.Planets...), cfg.Setup...)
	w = w.Step(ctx, ops...)
	w.Check(ctx)
	return w
}

func b01(b bool) string {
	if b {
		return "0x1"
	}
	return "0x0"
}

// Tx makes the transaction of an operation.
func (o Op) Tx(c *mc.Chain) module.Transaction {
	method, params := "", mc.J{}
	fwd := []string{}
	id := func() {
		params["id"] = hexi(o.IDs[0])
		fwd = append(fwd, fmt.Sprintf("i:%d", o.IDs[0]))
	}
	switch o.K {
	case "report":
		method = "reportPlanetWork"
		id()
	case "claim":
		method = "claimPlanetReward"
		l := []string{}
		for _, i := range o.IDs {
			l = append(l, hexi(i))
		}
		params["ids"] = l
		fwd = append(fwd, "l:"+strings.Trim(strings.Join(strings.Fields(fmt.Sprint(o.IDs)), ","), "[]"))
	case "reg":
		method = "registerPlanet"
		id()
		params["isPrivate"], params["isCompany"], params["owner"], params["usdt"], params["price"] = b01(o.Priv), b01(o.Comp), o.To, mc.Hex(o.USDT), mc.Hex(o.Price)
		fwd = append(fwd, "b:"+b01(o.Priv)[2:], "b:"+b01(o.Comp)[2:], "a:"+o.To, "i:"+o.USDT.String(), "i:"+o.Price.String())
	case "unreg":
		method = "unregisterPlanet"
		id()
	case "setowner":
		method = "setPlanetOwner"
		id()
		params["owner"] = o.To
		fwd = append(fwd, "a:"+o.To)
	case "usdt":
		method, params = "setUSDTPrice", mc.J{"price": hexz(o.A)}
		fwd = append(fwd, "i:"+o.A.String())
	case "rate":
		method, params = "setPrivateClaimableRate", mc.J{"numerator": hexi(o.N), "denominator": hexi(o.D)}
		fwd = append(fwd, "i:"+I(o.N).String(), "i:"+I(o.D).String())
	case "start":
		method, params = "startRewardIssue", mc.J{"height": hexz(o.A)}
		fwd = append(fwd, "i:"+o.A.String())
	case "withdraw":
		method, params = "withdrawLostTo", mc.J{"to": o.To}
		fwd = append(fwd, "a:"+o.To)
	case "addpm":
		method, params = "addPlanetManager", mc.J{"address": o.To}
		fwd = append(fwd, "a:"+o.To)
	case "rmpm":
		method, params = "removePlanetManager", mc.J{"address": o.To}
		fwd = append(fwd, "a:"+o.To)
	case "burn":
		o.To = System
	case "xfer":
	default:
		method, params = valTx(o)
		for _, a := range []string{o.To} {
			if a != "" {
				fwd = append(fwd, "a:"+a)
			}
		}
		if o.K == "vkey" {
			fwd = append(fwd, "x:"+string(PubKey(o.Node)))
		}
	}
	to := mc.System
	if method == "" {
		to = mc.Addr(o.To)
	}
	if o.From[0] == 'c' {
		f := Fwd{To: to.String(), Method: method, Params: fwd}
		if method == "" {
			f.Value = o.A.String()
		}
		bs, err := json.Marshal([]Fwd{f})
		mc.Must(err)
		return c.Call(mc.Addr(God), mc.Addr(o.From), nil, "run", mc.J{"p": string(bs)})
	}
	if method == "" {
		return c.ICX(mc.Addr(o.From), to, o.A)
	}
	return c.Call(mc.Addr(o.From), to, nil, method, params)
}

func hexi(v int64) string { return hexz(I(v)) }
func hexz(v Z) string {
	if v.Sign() < 0 {
		return "-0x" + new(big.Int).Neg(v).Text(16)
	}
	return "0x" + v.Text(16)
}

// Events gives the events of a receipt, and the transfers among them apart.
func Events(r module.Receipt) (evs []string, moves [][3]any) {
	for it := r.EventLogIterator(); it.Has(); mc.Must(it.Next()) {
		e, err := it.Get()
		mc.Must(err)
		args := append([][]byte{}, e.Indexed()[1:]...)
		args = append(args, e.Data()...)
		sig := string(e.Indexed()[0])
		if e.Address().String() != System {
			sig = e.Address().String() + ":" + sig
		}
		types := strings.Split(strings.TrimSuffix(sig[strings.Index(sig, "(")+1:], ")"), ",")
		l := []any{}
		for i, a := range args {
			switch types[i] {
			case "int":
				l = append(l, new(big.Int).Set(intconv.BigIntSetBytes(new(big.Int), a)))
			case "Address":
				if a == nil {
					l = append(l, "nil")
					continue
				}
				ad, err := common.NewAddress(a)
				mc.Must(err)
				l = append(l, ad.String())
			default:
				l = append(l, string(a))
			}
		}
		if sig == "Transfer(Address,Address,int)" {
			moves = append(moves, [3]any{l[0], l[1], l[2]})
			continue
		}
		evs = append(evs, Ev(sig, l...))
	}
	return
}

// Step makes the next block out of operations, for the chain and for the model, and compares what they report.
func (w *World) Step(ctx *mc.Ctx, ops ...Op) *World {
	m := w.M.Clone()
	var want []string
	var vo *Op
	for len(ops) > 0 && ops[0].K == "vote" {
		vo, ops = &ops[0], ops[1:]
	}
	vote, ballots := m.vote(w.C, vo)
	if need, base := m.Begin(ballots, false); need {
		want = append(want, "base ok "+strings.Join(base, "; "))
	}
	old := cp(w.M.Bal)
	delta := map[string]Z{}
	inc := func(a string, v Z) {
		if delta[a] == nil {
			delta[a] = I(0)
		}
		delta[a] = Add(delta[a], v)
	}
	issued := Sub(m.Supply, w.M.Supply)
	inc(Public, issued)
	txs := []module.Transaction{}
	for _, o := range ops {
		before := m.Text()
		ok, evs := m.Do(o)
		if !ok && before != m.Text() {
			panic("the model changes when it fails")
		}
		s := "ok "
		if !ok {
			s = "fails"
		} else if o.K == "burn" {
			if o.From[0] == 'h' {
				inc(o.From, Sub(I(0), o.A))
			} else { // the transfer to the system has an event
				inc(System, Sub(I(0), o.A))
			}
		} else if o.K == "xfer" {
			inc(o.From, Sub(I(0), o.A))
			inc(o.To, o.A)
		}
		want = append(want, fmt.Sprintf("%v: %s", o, s)+strings.Join(evs, "; "))
		txs = append(txs, o.Tx(w.C))
	}
	mc.Must(m.Sound())
	ctx.Trans(1 + len(ops))
	b, err := w.B.Next(vote, txs...)
	if err != nil {
		ctx.Fail("the block fails: %v", err)
		return nil
	}
	n := len(b.Rcts) - len(ops)
	for i, r := range b.Rcts {
		evs, moves := Events(r)
		s := "ok "
		if r.Status() != module.StatusSuccess {
			s = "fails"
			if len(evs) > 0 || len(moves) > 0 {
				ctx.Fail("a failing transaction has events %v %v", evs, moves)
			}
		}
		for _, x := range moves {
			inc(x[0].(string), Sub(I(0), x[2].(Z)))
			inc(x[1].(string), x[2].(Z))
		}
		head := "base"
		if i >= n {
			head = fmt.Sprintf("%v:", ops[i-n])
		}
		got := fmt.Sprintf("%s %s", head, s) + strings.Join(evs, "; ")
		if i >= len(want) {
			ctx.Fail("one more receipt: %s", got)
			return nil
		}
		if !ctx.Expect(got, want[i], "block %d", b.H) {
			return nil
		}
		ctx.Outcome(head, s, len(evs), len(moves))
	}
	if !ctx.Expect(len(b.Rcts), len(want), "receipts of block %d", b.H) {
		return nil
	}
	for a, v := range delta {
		if got := Add(z0(old[a]), v); got.Cmp(m.bal(a)) != 0 {
			ctx.Fail("block %d: the events of the receipts explain %v for %s which has %v", b.H, got, Short(a), m.bal(a))
		}
	}
	for _, a := range All {
		if delta[a] == nil && z0(old[a]).Cmp(m.bal(a)) != 0 {
			ctx.Fail("block %d: no event of the receipts explains the balance of %s, which goes from %v to %v", b.H, Short(a), old[a], m.bal(a))
		}
	}
	return &World{w.C, b, m}
}

// Check compares everything that can be asked from the chain with the model.
func (w *World) Check(ctx *mc.Ctx) {
	m, b := w.M, w.B
	for _, a := range All {
		ctx.Expect(b.Balance(mc.Addr(a)), m.bal(a), "block %d: the balance of %s", b.H, Short(a))
	}
	n := m.Clone()
	n.Begin(nil, true) // a query sees the state in which the next block executes
	ask := func(method string, params mc.J, want any) {
		got, err := b.Query(mc.System, method, params)
		s := "an error"
		if err == nil {
			s = Norm(got)
		}
		ctx.Expect(s, Norm(want), "block %d: %s%v", b.H, method, params)
	}
	type D = map[string]any
	b.Flush()
	ts, err := w.C.SM.GetTotalSupply(b.Res)
	mc.Must(err)
	ctx.Expect(ts, m.Supply, "block %d: the total supply", b.H)
	ii := D{"height": n.H, "termPeriod": n.Period, "issueReductionCycle": n.Cycle}
	if n.Start > 0 {
		ii["issueStart"] = n.Start
	}
	if n.Started() {
		ii["termSequence"] = n.Seq()
	}
	ask("getIssueInfo", nil, ii)
	if n.Started() {
		ask("getRewardInfo", nil, D{"height": n.H, "termSequence": n.Seq(), "rewardPerActivePlanet": n.PerPlanet()})
	} else {
		ask("getRewardInfo", nil, "an error")
	}
	ids := append(Keys(n.Planets), 99)
	for id := range n.PR {
		if _, ok := n.Planets[id]; !ok {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	infos := []any{}
	for _, id := range ids {
		p, ok := n.Planets[id]
		if !ok {
			ask("getPlanetInfo", mc.J{"id": mc.Hex(id)}, "an error")
			ask("getRewardInfoOf", mc.J{"id": mc.Hex(id)}, "an error")
			infos = append(infos, nil)
			continue
		}
		ask("getPlanetInfo", mc.J{"id": mc.Hex(id)}, D{"isPrivate": p.Priv, "isCompany": p.Comp, "owner": p.Owner, "usdtPrice": p.USDT, "havahPrice": p.Price, "height": p.H})
		r := n.pr(id)
		d := D{"id": id, "total": r.Total, "remain": r.Cur, "claimable": n.Claimable(id)}
		infos = append(infos, cp(d))
		d["height"] = n.H
		ask("getRewardInfoOf", mc.J{"id": mc.Hex(id)}, d)
	}
	if n.Rev >= 2 {
		l := []string{}
		for _, id := range ids {
			l = append(l, mc.Hex(id))
		}
		ask("getRewardInfosOf", mc.J{"ids": l}, D{"height": n.H, "rewardInfos": infos})
		ask("getLost", nil, n.Lost)
	}
	ask("getUSDTPrice", nil, n.Price)
	ask("getPrivateClaimableRate", nil, D{"numerator": n.Num, "denominator": n.Den})
	for _, u := range []string{Mgr, Alice, Bob, Gov} {
		ask("isPlanetManager", mc.J{"address": u}, n.PM[u])
	}
	if m.V != nil {
		w.valCheck(ctx, n, ask)
	}
	as := b.World().GetAccountState(mc.Addr(Sustainable).ID())
	for _, k := range []string{"service_fee", "tx_fee", "missing_reward", "hoover_refill"} {
		ctx.Expect(z0(scoredb.NewVarDB(as, k).BigInt()), z0(m.Vars[k]), "block %d: %s of the sustainable fund", b.H, k)
	}
}

// Norm writes a value in one way.
func Norm(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return b01(x)[2:]
	case int, int64:
		return fmt.Sprint(x)
	case *big.Int:
		return x.String()
	case *common.HexInt:
		return x.Value().String()
	case module.Address:
		return x.String()
	case string:
		return x
	case []byte:
		return fmt.Sprintf("0x%x", x)
	case common.HexBytes:
		return fmt.Sprintf("0x%x", []byte(x))
	case map[string]any:
		l := []string{}
		for _, k := range Keys(x) {
			l = append(l, k+":"+Norm(x[k]))
		}
		return "{" + strings.Join(l, " ") + "}"
	case []any:
		l := []string{}
		for _, e := range x {
			l = append(l, Norm(e))
		}
		return "[" + strings.Join(l, " ") + "]"
	}
	panic(fmt.Sprintf("a %T", v))
}

// Explore goes through every sequence of blocks, where a block has one of the lists of operations which alpha offers;
// if wide is not 0 only the first wide lists are followed by other blocks.
func Explore(ctx *mc.Ctx, w *World, name string, depth, wide int, alpha func(m *Econ) [][]Op) {
	layer := []*World{w}
	path := map[*World]string{w: name}
	for d := 0; d < depth; d++ {
		var next []*World
		seen := map[string]string{}
		for _, x := range layer {
			p := path[x]
			delete(path, x)
			for i, ops := range alpha(x.M) {
				ctx.Case("%s | %v", p, ops)
				y := x.Step(ctx, ops...)
				if y == nil {
					continue
				}
				root := y.B.Root()
				t := y.M.Text()
				if old, ok := seen[root]; ok {
					if old != t {
						ctx.Fail("two histories have the same state but the model has\n%s\n%s", old, t)
					}
					ctx.Note("same state again")
					continue
				}
				seen[root] = t
				ctx.State(name, d, t)
				y.Check(ctx)
				if wide != 0 && i >= wide {
					continue
				}
				y.B.Reload()
				path[y] = fmt.Sprintf("%s | %v", p, ops)
				next = append(next, y)
			}
		}
		layer = next
	}
	ctx.Sample(map[string]any{"family": name, "last layer": len(layer)})
}
