// Package tx plays transactions which run small programs in contracts, and knows what they must do.
package tx

import (
	"fmt"
	"sort"
	"strings"

	"github.com/icon-project/goloop/module"
)

// In is an instruction of a program.
type In struct {
	K      string // set, del, get, ev, burn, fail, bal, call, die
	A, B   string // key and value, or the address
	N      int64  // amount of burn, or code of fail
	To     string
	Value  int64
	Limit  int64 // steps given to the call: 0 for all
	Method string
	Body   Prog
	Catch  bool
}

type Prog []In

func (p Prog) String() string {
	var l []string
	for _, i := range p {
		l = append(l, i.String())
	}
	return strings.Join(l, "; ")
}

func (i In) String() string {
	switch i.K {
	case "set":
		return i.A + "=" + i.B
	case "del", "get", "bal":
		return i.K + " " + i.A
	case "ev":
		return "ev " + i.A
	case "burn", "fail", "die":
		return fmt.Sprintf("%s %d", i.K, i.N)
	}
	s := fmt.Sprintf("%s.%s", i.To, i.Method)
	if i.Value != 0 {
		s += fmt.Sprintf("$%d", i.Value)
	}
	if i.Limit != 0 {
		s += fmt.Sprintf("<%d", i.Limit)
	}
	s += "(" + i.Body.String() + ")"
	if i.Catch {
		s += "?"
	}
	return s
}

// Costs of steps: of the chain, and of the engine.
type Costs struct{ Default, Input, Call int64 }

const (
	setCost = 7
	delCost = 3
	getCost = 1
	evCost  = 5
)

// Kind of contract: which methods it has.
type Kind struct {
	Methods  map[string]bool // name: payable
	Fallback bool            // takes coins
	OnCoins  Prog            // what the fallback does
	Sys      bool
}

// State is what transactions change.
type State struct {
	Bal    map[string]int64
	St     map[string]map[string]string
	Supply int64
}

func (s *State) Copy() *State {
	r := &State{map[string]int64{}, map[string]map[string]string{}, s.Supply}
	for k, v := range s.Bal {
		r.Bal[k] = v
	}
	for k, v := range s.St {
		m := map[string]string{}
		for a, b := range v {
			m[a] = b
		}
		r.St[k] = m
	}
	return r
}

func (s *State) String() string {
	var l []string
	for k, v := range s.Bal {
		if v != 0 {
			l = append(l, fmt.Sprintf("%s:%d", k, v))
		}
	}
	for k, m := range s.St {
		for a, b := range m {
			l = append(l, fmt.Sprintf("%s.%s=%s", k, a, b))
		}
	}
	sort.Strings(l)
	return fmt.Sprintf("%s supply:%d", strings.Join(l, " "), s.Supply)
}

// Ev is an event in a receipt.
type Ev struct{ By, Sig, A, B, N string }

func (e Ev) String() string { return fmt.Sprintf("%s %s %s %s %s", e.By, e.Sig, e.A, e.B, e.N) }

// Rct is what the receipt must tell.
type Rct struct {
	Status      module.Status
	Used, Price int64
	Events      []Ev
}

func (r Rct) String() string {
	return fmt.Sprintf("status=%d used=%d price=%d events=%v", r.Status, r.Used, r.Price, r.Events)
}

// Tx is a transaction.
type Tx struct {
	From, To string
	Value    int64
	Limit    int64
	Kind     string // transfer, message, call, deposit
	Method   string
	Body     Prog
	Data     string // of a message or a deposit
}

func (t Tx) String() string {
	return fmt.Sprintf("%s %s->%s %d limit %d %s(%s)%s", t.Kind, t.From, t.To, t.Value, t.Limit, t.Method, t.Body, t.Data)
}

// Rules of a chain.
type Rules struct {
	Costs  Costs
	Price  int64
	Invoke int64 // limit of steps of a transaction
	Rev    int64
	Kinds  map[string]Kind // contracts by name
	Owner  map[string]string
	Dies   bool // the engine may have died in the last transaction
}

const (
	sOK         = module.StatusSuccess
	sNoContract = module.StatusContractNotFound
	sNoMethod   = module.StatusMethodNotFound
	sNotPayable = module.StatusMethodNotPayable
	sFormat     = module.StatusIllegalFormat
	sBadParam   = module.StatusInvalidParameter
	sDenied     = module.StatusAccessDenied
	sOutOfStep  = module.StatusOutOfStep
	sOutOfBal   = module.StatusOutOfBalance
	sReverted   = module.StatusReverted
	sUnknown    = module.StatusUnknownFailure
)

func contractName(n string) bool { return n[0] == 'C' || n == "SYS" }

// run is the execution of a transaction by the reference.
type run struct {
	r    *Rules
	s    *State
	log  []string // what programs observe
	dies bool     // the engine may die
}

// frame of a call: steps may be used up to the limit.
type frame struct {
	limit, used int64
	ro          bool
	events      []Ev
}

func (f *frame) take(n int64) bool {
	f.used += n
	if f.used > f.limit {
		f.used = f.limit
		return false
	}
	return true
}

// move transfers coins.
func (x *run) move(f *frame, from, to string, v int64) module.Status {
	if f.ro {
		return sDenied
	}
	if x.s.Bal[from] < v {
		return sOutOfBal
	}
	if contractName(to) && !x.exists(to) || to == "HC1" {
		return sBadParam
	}
	x.s.Bal[from] -= v
	x.s.Bal[to] += v
	if contractName(from) && v > 0 {
		f.events = append(f.events, Ev{"SYS", "Transfer(Address,Address,int)", from, to, fmt.Sprint(v)})
	}
	return sOK
}

func (x *run) exists(c string) bool {
	_, ok := x.r.Kinds[c]
	return ok
}

// call runs one call within its own limit; the effects and events stay only if it succeeds.
func (x *run) call(from, to string, value, limit int64, method string, body Prog, inter, ro, plain, external bool) (st module.Status, used int64, evs []Ev) {
	f := &frame{limit: limit, ro: ro}
	before := x.s.Copy()
	st = x.callIn(f, from, to, value, method, body, inter, plain, external)
	if st != sOK {
		x.s = before
		return st, f.used, nil
	}
	if f.ro {
		return st, f.used, nil
	}
	return st, f.used, f.events
}

func (x *run) callIn(f *frame, from, to string, value int64, method string, body Prog, inter, plain, external bool) module.Status {
	if !contractName(to) {
		if !plain && external { // a call of something which isn't a contract
			if value > 0 {
				if st := x.move(f, from, to, value); st != sOK {
					return x.early(f, st)
				}
				return x.early(f, sNoContract)
			}
			return x.early(f, sBadParam)
		}
		if inter && !f.take(x.r.Costs.Call) {
			return sOutOfStep
		}
		return x.move(f, from, to, value)
	}
	k, alive := x.r.Kinds[to]
	if plain || value > 0 {
		if st := x.move(f, from, to, value); st != sOK {
			return x.early(f, st)
		}
		switch {
		case plain || method == "":
			method = ""
			if !k.Fallback {
				return x.early(f, sNoMethod)
			}
		default:
			p, ok := k.Methods[method]
			if !ok && method != "<init>" {
				return x.early(f, sNoMethod)
			}
			if !p {
				return x.early(f, sNotPayable)
			}
		}
	}
	if !alive {
		return x.early(f, sNoContract)
	}
	if !k.Sys && !f.take(x.r.Costs.Call) {
		return sOutOfStep
	}
	if method == "" {
		if !k.Fallback || external && !plain {
			return x.late(f, k, sNoMethod)
		}
		if f.ro {
			return x.late(f, k, sDenied)
		}
		body = k.OnCoins
	} else {
		if _, ok := k.Methods[method]; !ok {
			return x.late(f, k, sNoMethod)
		}
		look := method == "look" || k.Sys // of the system, only queries are called here
		if look {
			f.ro = true
		} else if f.ro {
			return x.late(f, k, sDenied)
		}
	}
	if k.Sys {
		if !f.take(x.r.Costs.Call) {
			return sOutOfStep
		}
		if method == "" { // coins for the system are burned
			x.s.Bal[to] -= value
			x.s.Supply -= value
			f.events = append(f.events, Ev{"SYS", "Burned(Address,int,int)", to, fmt.Sprint(value), fmt.Sprint(x.s.Supply)})
		}
		return sOK
	}
	return x.exec(f, from, to, value, method, body)
}

// early fails a call before its contract is charged for: it is charged all the same.
func (x *run) early(f *frame, st module.Status) module.Status {
	if !f.take(x.r.Costs.Call) {
		return sOutOfStep
	}
	return st
}

// late fails a call of a contract, which has been charged for unless it is the system.
func (x *run) late(f *frame, k Kind, st module.Status) module.Status {
	if k.Sys {
		return x.early(f, st)
	}
	return st
}

// exec runs the program as the engine does, in the steps which are left.
func (x *run) exec(f *frame, from, to string, value int64, method string, body Prog) module.Status {
	limit := f.limit - f.used
	x.log = append(x.log, entry(from, to, value, limit, method, f.ro))
	var used int64
	done := func(st module.Status) module.Status {
		f.take(used)
		return st
	}
	take := func(n int64) bool {
		if used+n > limit {
			used = limit
			return false
		}
		used += n
		return true
	}
	for _, i := range body {
		if !take(cost(i)) {
			return done(sOutOfStep)
		}
		switch i.K {
		case "set", "del":
			if f.ro {
				return done(sDenied)
			}
			m := x.s.St[to]
			if m == nil {
				m = map[string]string{}
				x.s.St[to] = m
			}
			if i.K == "set" {
				m[i.A] = i.B
			} else {
				delete(m, i.A)
			}
		case "get":
			x.log = append(x.log, fmt.Sprintf("get %s.%s=%s", to, i.A, x.s.St[to][i.A]))
		case "bal":
			x.log = append(x.log, fmt.Sprintf("bal %s=%d", i.A, x.s.Bal[i.A]))
		case "ev":
			if f.ro {
				return done(sDenied)
			}
			f.events = append(f.events, Ev{to, "E(str)", i.A, "", ""})
		case "die":
			x.dies = true
		case "fail":
			return done(sReverted + module.Status(i.N))
		case "call":
			l := limit - used
			if i.Limit != 0 && i.Limit < l {
				l = i.Limit
			}
			st, u, evs := x.call(to, i.To, i.Value, l, i.Method, i.Body, true, f.ro, false, false)
			used += u
			x.log = append(x.log, fmt.Sprintf("called %s.%s: %d, %d steps", i.To, i.Method, st, u))
			if st != sOK {
				if !i.Catch {
					return done(st)
				}
			} else {
				f.events = append(f.events, evs...)
			}
		}
	}
	return done(sOK)
}

func cost(i In) int64 {
	switch i.K {
	case "set":
		return setCost
	case "del":
		return delCost
	case "get", "bal":
		return getCost
	case "ev":
		return evCost
	case "burn":
		return i.N
	}
	return 0
}

func entry(from, to string, value, limit int64, method string, ro bool) string {
	return fmt.Sprintf("enter %s->%s.%s value %d limit %d readonly %v", from, to, method, value, limit, ro)
}

// Exec gives the receipt of a transaction and changes the state; dataLen is the size of its data.
func (r *Rules) Exec(s *State, t Tx, dataLen int) (rct Rct, log []string) {
	return r.exec(s, t, dataLen, false)
}

// Guess gives the receipt of the estimation of a transaction, which ignores its limit and whether its sender can pay all of it.
func (r *Rules) Guess(s *State, t Tx, dataLen int) (rct Rct, log []string) {
	return r.exec(s.Copy(), t, dataLen, true)
}

func (r *Rules) exec(s *State, t Tx, dataLen int, guess bool) (rct Rct, log []string) {
	x := &run{r: r, s: s.Copy()}
	limit := t.Limit
	if guess || limit > r.Invoke {
		limit = r.Invoke
	}
	base := &frame{limit: limit}
	st := func() module.Status {
		if !guess && s.Bal[t.From] < t.Limit*r.Price+t.Value {
			return sOutOfBal
		}
		if !base.take(r.Costs.Default) || !base.take(r.Costs.Input*int64(dataLen)) {
			return sOutOfStep
		}
		if t.Kind == "deposit" {
			return x.deposit(t)
		}
		st, used, evs := x.call(t.From, t.To, t.Value, base.limit-base.used, t.Method, t.Body, false, false, t.Kind != "call", true)
		base.take(used)
		base.events = evs
		return st
	}()
	used := base.used
	if used < r.Costs.Default {
		used = r.Costs.Default
	}
	price := r.Price
	if st != sOK {
		x.s = s.Copy()
	}
	if x.s.Bal[t.From] < used*price { // nothing but the fee is left of it
		x.s = s.Copy()
		if st != sOK || x.s.Bal[t.From] < used*price {
			price = 0
		}
		st = sOutOfBal
	}
	x.s.Bal[t.From] -= used * price
	rct = Rct{Status: st, Used: used, Price: price}
	if st == sOK {
		rct.Events = base.events
	}
	*s = *x.s
	r.Dies = x.dies
	return rct, x.log
}

func (x *run) deposit(t Tx) module.Status {
	if contractName(t.To) != true || !x.exists(t.To) || x.r.Owner[t.To] != t.From {
		return sFormat
	}
	switch {
	case strings.Contains(t.Data, `"add"`):
		return sNoMethod
	case strings.Contains(t.Data, `"withdraw"`):
		if t.Value != 0 {
			return sNotPayable
		}
		return sFormat
	}
	return sFormat
}

// Block executes transactions and pays their fees to the treasury.
func (r *Rules) Block(s *State, txs []Tx, lens []int) (rcts []Rct, log []string) {
	var fees int64
	for i, t := range txs {
		rct, l := r.Exec(s, t, lens[i])
		rcts = append(rcts, rct)
		log = append(log, l...)
		fees += rct.Used * rct.Price
	}
	s.Bal["TR"] += fees
	return
}
