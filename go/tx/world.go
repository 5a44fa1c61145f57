package tx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"sync"

	"github.com/icon-project/goloop/common/codec"
	"github.com/icon-project/goloop/common/errors"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/scoreapi"
	"github.com/icon-project/goloop/service/scoredb"
	"github.com/icon-project/goloop/service/scoreresult"
	"github.com/icon-project/goloop/service/state"

	"vgo/mc"
)

// Config of a chain.
type Config struct {
	Rules
	Bal map[string]int64
}

var addrs = map[string]module.Address{
	"GOD": mc.Addr("hx0000000000000000000000000000000000000666"),
	"TR":  mc.Addr("hx1000000000000000000000000000000000000000"),
	"SYS": mc.System,
}
var names = map[string]string{}

func init() {
	for i := 1; i <= 4; i++ {
		addrs[fmt.Sprintf("U%d", i)] = mc.User(i)
		addrs[fmt.Sprintf("C%d", i)] = mc.Score(i)
	}
	addrs["CX"] = mc.Score(99)
	addrs["CU2"] = mc.Addr("cx" + mc.User(2).String()[2:])  // an account which is no contract
	addrs["HC1"] = mc.Addr("hx" + mc.Score(1).String()[2:]) // a contract which is no account
	for n, a := range addrs {
		names[a.String()] = n
	}
}

// A gives the address of a name.
func A(n string) module.Address {
	if a, ok := addrs[n]; ok {
		return a
	}
	panic("no address " + n)
}

// N gives the name of an address.
func N(a module.Address) string {
	if a == nil {
		return ""
	}
	if n, ok := names[a.String()]; ok {
		return n
	}
	return a.String()
}

// World is a chain at a block, and what the reference says about it.
type World struct {
	C  *mc.Chain
	B  *mc.Block
	R  *Rules
	S  *State
	EE *engine
}

type engine struct {
	ee    *mc.EE
	lock  sync.Mutex
	progs []Prog
	ids   map[string]int
	log   []string
	died  int // times in this block
	kinds map[string]Kind
}

func (e *engine) id(p Prog) string {
	e.lock.Lock()
	defer e.lock.Unlock()
	return strconv.Itoa(e.idIn(p))
}
func (e *engine) idIn(p Prog) int {
	k := p.String()
	if n, ok := e.ids[k]; ok {
		return n
	}
	n := len(e.progs)
	e.progs = append(e.progs, p)
	e.ids[k] = n
	return n
}

func (e *engine) note(f string, a ...any) {
	e.lock.Lock()
	e.log = append(e.log, fmt.Sprintf(f, a...))
	e.lock.Unlock()
}

func (e *engine) take() []string {
	e.lock.Lock()
	defer e.lock.Unlock()
	l := e.log
	e.log, e.died = nil, 0
	return l
}

// codes tells contracts apart; the code of contract Cn is n.
func codeOf(n int) string { return fmt.Sprintf("0x%02x", n) }

func newEngine(kinds map[string]Kind) *engine {
	e := &engine{ids: map[string]int{}, kinds: kinds, ee: &mc.EE{N: 2}}
	e.ee.API = func(code string) *scoreapi.Info {
		var n int
		_, err := fmt.Sscanf(codeByHash[code[strings.LastIndex(code, "/")+1:]], "%d", &n)
		mc.Must(err)
		k := kinds[fmt.Sprintf("C%d", n)]
		l := []*scoreapi.Method{{Type: scoreapi.Function, Name: "<init>"},
			{Type: scoreapi.Event, Name: "E", Inputs: []scoreapi.Parameter{{Name: "v", Type: scoreapi.String}}, Indexed: 1}}
		for _, m := range []string{"run", "pay", "look"} {
			p, ok := k.Methods[m]
			if !ok {
				continue
			}
			fl := scoreapi.FlagExternal
			if p {
				fl |= scoreapi.FlagPayable
			}
			if m == "look" {
				fl |= scoreapi.FlagReadOnly
			}
			l = append(l, &scoreapi.Method{Type: scoreapi.Function, Name: m, Flags: fl, Inputs: []scoreapi.Parameter{{Name: "p", Type: scoreapi.String}}})
		}
		if k.Fallback {
			l = append(l, &scoreapi.Method{Type: scoreapi.Fallback, Name: "", Flags: scoreapi.FlagPayable})
		}
		return scoreapi.NewInfo(l)
	}
	e.ee.Code = e.run
	return e
}

// run is the engine: it runs a program in a contract.
func (e *engine) run(x *mc.Exec) (any, error) {
	if x.Method == "<init>" {
		return nil, nil
	}
	me := N(x.To)
	e.note("%s", entry(N(x.From), me, x.Value.Int64(), x.Limit.Int64(), x.Method, x.ReadOnly))
	var p Prog
	if x.Method == "" {
		p = e.kinds[me].OnCoins
	} else {
		n, err := strconv.Atoi(x.Params[0].(string))
		mc.Must(err)
		e.lock.Lock()
		p = e.progs[n]
		e.lock.Unlock()
	}
	for _, i := range p {
		c := big.NewInt(cost(i))
		if c.Add(c, x.Used).Cmp(x.Limit) > 0 {
			x.Used.Set(x.Limit)
			return nil, scoreresult.OutOfStepError.New("out of step")
		}
		x.Used.Set(c)
		switch i.K {
		case "set", "del", "ev":
			if x.ReadOnly {
				return nil, scoreresult.AccessDeniedError.New("read only")
			}
			switch i.K {
			case "set":
				x.Set(i.A, i.B)
			case "del":
				x.Set(i.A, "")
			default:
				x.Event([][]byte{[]byte("E(str)"), []byte(i.A)}, nil)
			}
		case "get":
			e.note("get %s.%s=%s", me, i.A, x.Get(i.A))
		case "bal":
			e.note("bal %s=%d", i.A, x.Balance(A(i.A)))
		case "die":
			e.lock.Lock()
			if int64(e.died) < i.N {
				e.died++
				for n := len(e.log) - 1; ; n-- {
					if l := e.log[n]; strings.HasPrefix(l, "enter U") { // the transaction starts again
						e.log = e.log[:n]
						break
					}
				}
				e.lock.Unlock()
				x.Die()
			}
			e.lock.Unlock()
		case "fail":
			return nil, errors.Code(int64(scoreresult.RevertedError) + i.N).New("reverted")
		case "call":
			l := new(big.Int).Sub(x.Limit, x.Used)
			if i.Limit != 0 && l.Cmp(big.NewInt(i.Limit)) > 0 {
				l.SetInt64(i.Limit)
			}
			u := new(big.Int).Set(x.Used)
			var params []any
			if i.Method != "" && i.To != "SYS" {
				params = []any{e.id(i.Body)}
			}
			_, err := x.Call(A(i.To), big.NewInt(i.Value), l, i.Method, params)
			st, _ := scoreresult.StatusOf(err)
			e.note("called %s.%s: %d, %d steps", i.To, i.Method, st, u.Sub(x.Used, u))
			if err != nil && !i.Catch {
				return nil, err
			}
		}
	}
	return nil, nil
}

// codeByHash: directories of contracts are named by the hash of their code.
var codeByHash = map[string]string{}

// Open makes a chain with the accounts and contracts of the configuration.
func Open(ctx *mc.Ctx, cfg Config) *World {
	r := cfg.Rules
	e := newEngine(r.Kinds)
	c := mc.NewChain(mc.NewDB(), e.ee)
	var l []any
	s := &State{map[string]int64{}, map[string]map[string]string{}, 0}
	l = append(l, mc.J{"name": "god", "address": A("GOD").String(), "balance": "0x0"}, mc.J{"name": "treasury", "address": A("TR").String(), "balance": "0x0"})
	for n := 1; n <= 4; n++ {
		u, k := fmt.Sprintf("U%d", n), fmt.Sprintf("C%d", n)
		if b := cfg.Bal[u]; b != 0 {
			l = append(l, mc.J{"name": strings.ToLower(u), "address": A(u).String(), "balance": mc.Hex(b)})
			s.Bal[u] = b
		}
		if _, ok := r.Kinds[k]; ok {
			code := []byte{byte(n)}
			codeByHash["0x"+fmt.Sprintf("%x", mc.Sha3(code))] = strconv.Itoa(n)
			l = append(l, mc.J{"name": strings.ToLower(k), "address": A(k).String(), "balance": mc.Hex(cfg.Bal[k]),
				"score": mc.J{"owner": A(r.Owner[k]).String(), "contentType": "application/java", "content": codeOf(n)}})
			s.Bal[k] = cfg.Bal[k]
		}
	}
	costs := mc.J{"default": mc.Hex(r.Costs.Default), "input": mc.Hex(r.Costs.Input), "contractCall": mc.Hex(r.Costs.Call)}
	g := c.Begin(mc.J{"accounts": l, "chain": mc.J{"platform": "havah", "revision": mc.Hex(r.Rev), "validatorList": []any{mc.User(10).String()},
		"fee":   mc.J{"stepPrice": mc.Hex(r.Price), "stepLimit": mc.J{"invoke": mc.Hex(r.Invoke), "query": "0x2faf080"}, "stepCosts": costs},
		"havah": mc.J{"usdtPrice": "0x1", "termPeriod": "0x64", "issueReductionCycle": "0x64", "issueLimit": "0x64", "issueAmount": "0x0", "hooverBudget": "0x0"}}, "message": "x", "nid": "0x1"})
	for _, b := range s.Bal {
		s.Supply += b
	}
	w := &World{c, g, &r, s, e}
	return w
}

// Make makes the real transaction.
func (w *World) Make(t Tx) (module.Transaction, int) {
	x := mc.J{}
	switch t.Kind {
	case "call":
		d := mc.J{"method": t.Method}
		if t.To != "SYS" {
			d["params"] = mc.J{"p": w.EE.id(t.Body)}
		}
		x["dataType"], x["data"] = "call", d
	case "message":
		x["dataType"], x["data"] = "message", t.Data
	case "deposit":
		x["dataType"], x["data"] = "deposit", json.RawMessage(t.Data)
	}
	n := 0
	if d, ok := x["data"]; ok {
		bs, err := json.Marshal(d)
		mc.Must(err)
		n = len(bs)
	}
	var v any
	if t.Value != 0 {
		v = t.Value
	}
	return w.C.Tx(A(t.From), A(t.To), v, t.Limit, x), n
}

// Guess estimates a transaction and compares the receipt.
func (w *World) Guess(ctx *mc.Ctx, t Tx) {
	x, n := w.Make(t)
	j, err := x.ToJSON(module.JSONVersion3)
	mc.Must(err)
	bs, err := json.Marshal(j)
	mc.Must(err)
	w.EE.take()
	w.B.Flush()
	r, err := w.B.Guess(bs)
	if err != nil {
		ctx.Fail("no estimate: %v for %v", err, t)
		return
	}
	want, log := w.R.Guess(w.S, t, n)
	w.seen(ctx, log)
	if g := receipt(r); g.String() != want.String() {
		ctx.Fail("estimate\n  %s\ninstead of\n  %s\nfor %v\nafter %s", g, want, t, w.S)
	}
}

func (w *World) seen(ctx *mc.Ctx, log []string) {
	got := w.EE.take()
	if fmt.Sprint(got) != fmt.Sprint(log) {
		ctx.Fail("programs see\n  %s\ninstead of\n  %s", strings.Join(got, "\n  "), strings.Join(log, "\n  "))
	}
}

// receipt reads a receipt.
func receipt(r module.Receipt) Rct {
	var evs []Ev
	for it := r.EventLogIterator(); it.Has(); it.Next() {
		e, err := it.Get()
		mc.Must(err)
		ev := Ev{By: N(e.Address()), Sig: string(e.Indexed()[0])}
		switch ev.Sig {
		case "E(str)":
			ev.A = string(e.Indexed()[1])
		case "Burned(Address,int,int)":
			ev.A, ev.B, ev.N = name(e.Indexed()[1]), new(big.Int).SetBytes(e.Data()[0]).String(), new(big.Int).SetBytes(e.Data()[1]).String()
		default:
			ev.A, ev.B = name(e.Indexed()[1]), name(e.Indexed()[2])
			ev.N = new(big.Int).SetBytes(e.Data()[0]).String()
		}
		evs = append(evs, ev)
	}
	return Rct{r.Status(), r.StepUsed().Int64(), r.StepPrice().Int64(), evs}
}

type result struct {
	StateHash, PatchReceiptHash, NormalReceiptHash, ExtensionData, BTPData []byte
}

// Stuck expects that a block of transactions can't be executed.
func (w *World) Stuck(ctx *mc.Ctx, txs ...Tx) {
	var l []module.Transaction
	for _, t := range txs {
		x, _ := w.Make(t)
		l = append(l, x)
	}
	if _, err := w.B.Next(nil, l...); err == nil {
		ctx.Fail("the block is executed without its engine: %v", txs)
	}
}

// Step executes a block of transactions and compares all it leaves with the reference.
func (w *World) Step(ctx *mc.Ctx, txs ...Tx) *World {
	var l []module.Transaction
	var lens []int
	for _, t := range txs {
		x, n := w.Make(t)
		l, lens = append(l, x), append(lens, n)
	}
	w.EE.take()
	b, err := w.B.Next(nil, l...)
	if err != nil {
		ctx.Fail("the block isn't executed: %v\n%v", err, txs)
	}
	s := w.S.Copy()
	rcts, log := w.R.Block(s, txs, lens)
	w.seen(ctx, log)
	var cum int64
	if len(b.Rcts) != len(rcts) {
		ctx.Fail("%d receipts for %d transactions", len(b.Rcts), len(rcts))
	}
	for i, r := range b.Rcts {
		cum += rcts[i].Used
		g := receipt(r)
		if g.String() != rcts[i].String() {
			ctx.Fail("receipt\n  %s\ninstead of\n  %s\nfor %v\nafter %s", g, rcts[i], txs[i], w.S)
		}
		if r.CumulativeStepUsed().Int64() != cum {
			ctx.Fail("cumulative steps %d instead of %d", r.CumulativeStepUsed(), cum)
		}
		if !r.To().Equal(A(txs[i].To)) {
			ctx.Fail("receipt is for %v instead of %s", r.To(), txs[i].To)
		}
		ctx.Outcome(fmt.Sprintf("status %d", g.Status))
	}
	n := &World{w.C, b, w.R, s, w.EE}
	n.compare(ctx, w, txs)
	return n
}

func name(bs []byte) string {
	for n, a := range addrs {
		if bytes.Equal(a.Bytes(), bs) {
			return n
		}
	}
	return fmt.Sprintf("%x", bs)
}

// compare checks that the new world is the old one with the changes of the reference, and nothing else.
func (w *World) compare(ctx *mc.Ctx, old *World, txs []Tx) {
	ws := old.B.World()
	for n, v := range w.S.Bal {
		if v != old.S.Bal[n] {
			ws.GetAccountState(A(n).ID()).SetBalance(big.NewInt(v))
		}
	}
	if w.S.Supply != old.S.Supply {
		mc.Must(scoredb.NewVarDB(ws.GetAccountState(state.SystemID), state.VarTotalSupply).Set(w.S.Supply))
	}
	for n, m := range w.S.St {
		as := ws.GetAccountState(A(n).ID())
		for k, v := range m {
			if v != old.S.St[n][k] {
				_, err := as.SetValue([]byte(k), []byte(v))
				mc.Must(err)
			}
		}
		for k := range old.S.St[n] {
			if _, ok := m[k]; !ok {
				_, err := as.DeleteValue([]byte(k))
				mc.Must(err)
			}
		}
	}
	var r result
	_, err := codec.BC.UnmarshalFromBytes(w.B.Res, &r)
	mc.Must(err)
	if h := ws.GetSnapshot().StateHash(); bytes.Equal(h, r.StateHash) {
		return
	}
	ctx.Fail("the world is\n  %s\ninstead of\n  %s\nafter\n  %s", w.real(), w.S, old.S)
}

// real reads the real state.
func (w *World) real() *State {
	s := &State{map[string]int64{}, map[string]map[string]string{}, 0}
	ws := w.B.World()
	s.Supply = scoredb.NewVarDB(ws.GetAccountState(state.SystemID), state.VarTotalSupply).Int64()
	for n, a := range addrs {
		as := ws.GetAccountState(a.ID())
		s.Bal[n] = as.GetBalance().Int64()
		m := map[string]string{}
		for _, k := range []string{"a", "b", "f"} {
			v, err := as.GetValue([]byte(k))
			mc.Must(err)
			if v != nil {
				m[k] = string(v)
			}
		}
		s.St[n] = m
	}
	return s
}
