// Package hv has the reference models of the HAVAH platform and the means to compare them with a chain.
package hv

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"vgo/mc"
)

type Z = *big.Int

func I(v int64) Z { return big.NewInt(v) }
func Add(a, b Z) Z {
	return new(big.Int).Add(a, b)
}
func Sub(a, b Z) Z { return new(big.Int).Sub(a, b) }
func Mul(a, b Z) Z { return new(big.Int).Mul(a, b) }
func Div(a, b Z) Z { return new(big.Int).Div(a, b) }
func Min(a Z, l ...Z) Z {
	for _, b := range l {
		if b.Cmp(a) < 0 {
			a = b
		}
	}
	return a
}

// Coin is 10^18.
func Coin(n int64) Z { return Mul(I(n), new(big.Int).Exp(I(10), I(18), nil)) }

// The accounts of the platform.
const (
	System      = "cx0000000000000000000000000000000000000000"
	Treasury    = "hx1000000000000000000000000000000000000000"
	Public      = "hx3000000000000000000000000000000000000000"
	Sustainable = "cx4000000000000000000000000000000000000000"
	Hoover      = "hx6000000000000000000000000000000000000000"
	Eco         = "cx7000000000000000000000000000000000000000"
	NFT         = "cx8000000000000000000000000000000000000000"
	Service     = "hx9000000000000000000000000000000000000000"
)

// The users of the checks.
var (
	Gov   = mc.User(0).String()
	God   = mc.User(1).String()
	Mgr   = mc.User(2).String()
	Own1  = mc.User(3).String()
	Own2  = mc.User(4).String()
	Alice = mc.User(5).String()
	Bob   = mc.User(6).String()
	Proxy = mc.Score(7).String()
)

type Planet struct {
	Priv, Comp  bool
	Owner       string
	USDT, Price Z
	H           int64
}
type Reward struct {
	Total, Cur Z
	Last       int64
}

// Econ is the reference model of the issuance and of the rewards.
type Econ struct {
	H, Rev               int64
	Bal                  map[string]Z
	Supply               Z
	Start, Period        int64
	Cycle, Limit         int64
	Issue, Budget, Price Z
	Active, Working      int64
	APrice, Total        Z
	Remain, EcoR, Lost   Z
	Num, Den             int64
	PM                   map[string]bool
	Planets              map[int64]Planet
	PR                   map[int64]Reward
	Vars                 map[string]Z
	Gift                 Z // what was sent to the public treasury by users
	V                    *Val
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (m *Econ) Clone() *Econ {
	c := *m
	c.Bal, c.PM, c.Planets, c.PR, c.Vars, c.V = cp(m.Bal), cp(m.PM), cp(m.Planets), cp(m.PR), cp(m.Vars), m.V.Clone()
	return &c
}

func (m *Econ) Text() string {
	bs, err := json.Marshal(m)
	mc.Must(err)
	return string(bs)
}

func (m *Econ) bal(a string) Z {
	if v := m.Bal[a]; v != nil {
		return v
	}
	return I(0)
}

func (m *Econ) Move(from, to string, v Z) {
	if v.Sign() == 0 || from == to {
		return
	}
	if v.Sign() < 0 || m.bal(from).Cmp(v) < 0 {
		panic(fmt.Sprintf("the model moves %v from %s which has %v", v, from, m.bal(from)))
	}
	m.Bal[from] = Sub(m.bal(from), v)
	m.Bal[to] = Add(m.bal(to), v)
}

func (m *Econ) vari(k string, v Z) {
	if v.Sign() > 0 {
		if m.Vars[k] == nil {
			m.Vars[k] = I(0)
		}
		m.Vars[k] = Add(m.Vars[k], v)
	}
}

func Ev(sig string, args ...any) string {
	l := []string{sig}
	for _, a := range args {
		l = append(l, fmt.Sprint(a))
	}
	return strings.Join(l, " ")
}

func (m *Econ) Started() bool { return m.Start > 0 && m.H >= m.Start }
func (m *Econ) Seq() int64    { return (m.H - m.Start) / m.Period }

func (m *Econ) PerPlanet() Z {
	if m.Active > 0 {
		return Div(m.Total, I(m.Active))
	}
	return I(0)
}

// NeedBase tells whether the block of the model starts with a base transaction.
func (m *Econ) NeedBase() bool { return m.Started() && (m.H-m.Start)%m.Period == 0 }

// NextIssue is how much the term issues, whatever the limit is.
func (m *Econ) NextIssue() Z {
	seq := m.Seq()
	if seq > 0 && seq%m.Cycle == 0 {
		return Sub(m.Issue, Div(Mul(m.Issue, I(3)), I(10)))
	}
	return m.Issue
}

// Begin goes to the next block and does what the base transaction does.
func (m *Econ) Begin(votes []Ballot, query bool) (base bool, evs []string) {
	m.H++
	check := m.needVote()
	if m.NeedBase() {
		evs = m.term()
	}
	if m.V != nil {
		evs = append(evs, m.valBegin(check, votes, query)...)
	}
	return m.NeedBase() || check, evs
}

func (m *Econ) term() (evs []string) {
	seq := m.Seq()
	if seq > 0 && seq <= m.Limit {
		m.Move(Public, Eco, m.EcoR)
		m.EcoR = I(0)
		for _, f := range []struct{ from, k string }{{Treasury, "tx_fee"}, {Service, "service_fee"}} {
			b := m.bal(f.from)
			e := Div(b, I(5))
			m.Move(f.from, Eco, e)
			m.Move(f.from, Sustainable, Sub(b, e))
			m.vari(f.k, Sub(b, e))
		}
		missed := m.Total
		if m.Active > 0 {
			missed = Mul(m.PerPlanet(), I(m.Active-m.Working))
		}
		m.Remain = Sub(m.Remain, missed)
		m.Move(Public, Sustainable, missed)
		m.vari("missing_reward", missed)
		if short := Sub(m.Budget, m.bal(Hoover)); short.Sign() > 0 {
			amt := Min(short, m.bal(Sustainable))
			m.Move(Sustainable, Hoover, amt)
			m.vari("hoover_refill", amt)
			evs = append(evs, Ev("HooverRefilled(int,int,int)", amt, m.bal(Hoover), m.bal(Sustainable)))
		}
		m.Active, m.Working, m.APrice = 0, 0, I(0)
	}
	if seq < m.Limit {
		m.Issue = m.NextIssue()
		m.Supply = Add(m.Supply, m.Issue)
		m.Bal[Public] = Add(m.bal(Public), m.Issue)
		evs = append(evs, Ev("Issued(int,int,int)", seq, m.Issue, m.Supply))
		m.Active = int64(len(m.Planets))
		m.APrice = m.Price
		m.Remain = Add(m.Remain, m.Issue)
		m.Total = m.Remain
		if m.Rev >= 2 {
			evs = append(evs, Ev("TermStarted(int,int,int)", seq, m.Active, m.PerPlanet()))
		}
	}
	return
}

// Op is a transaction.
type Op struct {
	K           string // report, claim, reg, unreg, setowner, usdt, rate, start, withdraw, addpm, rmpm, burn, xfer
	From        string
	IDs         []int64
	To          string
	A           Z // an amount, a price or a height
	N, D        int64
	Priv, Comp  bool
	USDT, Price Z
	Node        int
	Str         []string
}

func (o Op) String() string {
	s := o.K
	if o.From != "" {
		s += " by " + Short(o.From)
	}
	if o.IDs != nil {
		s += fmt.Sprint(o.IDs)
	}
	if o.To != "" {
		s += " to " + Short(o.To)
	}
	if o.A != nil {
		s += " " + o.A.String()
	}
	if o.K == "rate" || o.K == "vparams" || o.K == "vcount" || o.K == "setrev" {
		s += fmt.Sprintf(" %d/%d", o.N, o.D)
	}
	if o.K == "vreg" || o.K == "vkey" {
		s += fmt.Sprintf(" node %d", o.Node)
	}
	if o.Str != nil {
		s += fmt.Sprintf(" %.40q", o.Str)
	}
	if o.K == "reg" {
		s += fmt.Sprintf(" priv=%v comp=%v usdt=%v price=%v", o.Priv, o.Comp, o.USDT, o.Price)
	}
	return s
}

func Short(a string) string {
	for n, v := range map[string]string{"gov": Gov, "god": God, "mgr": Mgr, "own1": Own1, "own2": Own2, "alice": Alice, "bob": Bob, "nft": NFT,
		"public": Public, "sustainable": Sustainable, "hoover": Hoover, "eco": Eco, "service": Service, "treasury": Treasury, "system": System, "proxy": Proxy} {
		if a == v {
			return n
		}
	}
	return a
}

func (m *Econ) Claimable(id int64) Z {
	p, r := m.Planets[id], m.pr(id)
	if !p.Priv || r.Cur.Sign() == 0 {
		return r.Cur
	}
	locked := Div(Mul(I(m.Den-m.Num), r.Total), I(m.Den))
	if v := Sub(r.Cur, locked); v.Sign() > 0 {
		return v
	}
	return I(0)
}

func (m *Econ) pr(id int64) Reward {
	if r, ok := m.PR[id]; ok {
		return r
	}
	return Reward{I(0), I(0), 0}
}

// Do applies a transaction of the current block; on failure nothing changes.
func (m *Econ) Do(o Op) (ok bool, evs []string) {
	var id int64
	if len(o.IDs) > 0 {
		id = o.IDs[0]
	}
	gov := o.From == Gov
	_, known := m.Planets[id]
	switch o.K {
	case "report":
		if !m.PM[o.From] || !m.Started() || !known {
			return
		}
		p, r, tn := m.Planets[id], m.pr(id), m.Seq()+1
		if p.H >= m.Start+m.Seq()*m.Period || tn <= r.Last {
			return
		}
		rew := m.PerPlanet()
		m.Remain = Sub(m.Remain, rew)
		sub := I(0)
		limit := Sub(Sub(p.Price, r.Total), rew)
		guide := Div(Div(Div(Mul(p.USDT, m.APrice), I(1_000_000)), I(10)), I(360))
		if limit.Sign() > 0 && rew.Cmp(guide) < 0 {
			sub = Min(Sub(guide, rew), limit, m.bal(Hoover))
		}
		m.Move(Hoover, Public, sub)
		all := Add(rew, sub)
		mine := all
		if p.Comp {
			e := Div(Mul(all, I(3)), I(5))
			m.EcoR = Add(m.EcoR, e)
			mine = Sub(all, e)
		}
		m.PR[id] = Reward{Add(r.Total, all), Add(r.Cur, mine), tn}
		m.Working++
		return true, []string{Ev("RewardOffered(int,int,int,int)", m.Seq(), id, all, sub)}
	case "claim":
		if len(o.IDs) > 50 || !m.Started() {
			return
		}
		for _, id := range o.IDs {
			p, known := m.Planets[id]
			if !known || p.Owner != o.From {
				continue
			}
			if v := m.Claimable(id); v.Sign() > 0 {
				r := m.pr(id)
				r.Cur = Sub(r.Cur, v)
				m.PR[id] = r
				m.Move(Public, o.From, v)
				evs = append(evs, Ev("RewardClaimed(Address,int,int,int)", o.From, m.Seq(), id, v))
			}
		}
		return true, evs
	case "reg":
		if o.From != NFT || id < 0 || known {
			return
		}
		m.Planets[id] = Planet{o.Priv, o.Comp, o.To, o.USDT, o.Price, m.H}
	case "unreg":
		if o.From != NFT || !known {
			return
		}
		delete(m.Planets, id)
		if m.Rev >= 2 {
			cur := m.pr(id).Cur
			delete(m.PR, id)
			m.Lost = Add(m.Lost, cur)
			if cur.Sign() > 0 {
				evs = append(evs, Ev("LostDeposited(int,int,str)", cur, m.Lost, fmt.Sprintf("PlanetUnregistered(id=%d)", id)))
			}
		}
	case "setowner":
		if o.From != NFT || !known {
			return
		}
		p := m.Planets[id]
		p.Owner = o.To
		m.Planets[id] = p
	case "usdt":
		if m.Rev >= 3 && !gov || o.A.Sign() < 0 {
			return
		}
		m.Price = o.A
	case "rate":
		if !gov || o.D <= 0 || o.D > 10000 || o.N < 0 || o.N > o.D {
			return
		}
		m.Num, m.Den = o.N, o.D
	case "start":
		if !gov || m.Started() || o.A.Sign() <= 0 || o.A.Int64() <= m.H {
			return
		}
		m.Start = o.A.Int64()
	case "withdraw":
		if m.Rev < 2 || !gov || strings.HasPrefix(o.To, "cx") {
			return
		}
		if m.Lost.Sign() > 0 {
			m.Move(Public, o.To, m.Lost)
			evs = append(evs, Ev("LostWithdrawn(Address,int)", o.To, m.Lost))
			if o.To == Public {
				m.Gift = Add(m.Gift, m.Lost)
			}
			m.Lost = I(0)
		}
	case "addpm":
		if !gov || m.PM[o.To] {
			return
		}
		m.PM[o.To] = true
	case "rmpm":
		if !gov || !m.PM[o.To] {
			return
		}
		delete(m.PM, o.To)
	case "burn":
		if m.bal(o.From).Cmp(o.A) < 0 {
			return
		}
		m.Bal[o.From] = Sub(m.bal(o.From), o.A)
		m.Supply = Sub(m.Supply, o.A)
		return true, []string{Ev("Burned(Address,int,int)", System, o.A, m.Supply)}
	case "xfer":
		if m.bal(o.From).Cmp(o.A) < 0 {
			return
		}
		m.Move(o.From, o.To, o.A)
		if o.To == Public {
			m.Gift = Add(m.Gift, o.A)
		}
	default:
		return m.valDo(o)
	}
	return true, evs
}

// Sound checks the model itself: what the specification promises about the money.
func (m *Econ) Sound() error {
	s := I(0)
	for a, v := range m.Bal {
		if v.Sign() < 0 {
			return fmt.Errorf("%s has %v", a, v)
		}
		s = Add(s, v)
	}
	if s.Cmp(m.Supply) != 0 {
		return fmt.Errorf("the supply is %v but the balances add up to %v", m.Supply, s)
	}
	owed := Add(Add(m.Remain, m.EcoR), Add(m.Lost, m.Gift))
	for _, r := range m.PR {
		owed = Add(owed, r.Cur)
	}
	if owed.Cmp(m.bal(Public)) != 0 {
		return fmt.Errorf("the public treasury has %v but owes %v", m.bal(Public), owed)
	}
	if m.V != nil {
		if err := m.V.sound(); err != nil {
			return err
		}
	}
	if m.Working > m.Active && m.Active > 0 {
		return fmt.Errorf("%d planets work of %d", m.Working, m.Active)
	}
	return nil
}

func Keys[K int64 | string, V any](m map[K]V) []K {
	var l []K
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}
