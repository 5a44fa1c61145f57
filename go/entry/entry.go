// Package entry sends and proposes transactions to a node and looks whether they get in and the chain goes on.
package entry

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/icon-project/goloop/block"
	"github.com/icon-project/goloop/common/codec"
	"github.com/icon-project/goloop/consensus"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/scoreapi"
	"github.com/icon-project/goloop/service/transaction"
	"vgo/mc"
	. "vgo/node"
)

const (
	us    = int64(1)
	ms    = 1000 * us
	sec   = 1000 * ms
	start = int64(1_700_000_000) * sec
	win   = 5 * sec
)

// world is a node whose chain is used by one case after the other.
type world struct {
	c    *mc.Ctx
	n    *Node
	on   bool // rewards have started: each block begins with a base transaction
	now  int64
	seq  int
	base []module.Transaction // of the next block
}

func engine() *mc.EE {
	return &mc.EE{N: 1,
		API: func(string) *scoreapi.Info {
			s := []scoreapi.Parameter{{Name: "p", Type: scoreapi.String}}
			return scoreapi.NewInfo([]*scoreapi.Method{
				{Type: scoreapi.Function, Name: "<init>"},
				{Type: scoreapi.Function, Name: "run", Flags: scoreapi.FlagExternal | scoreapi.FlagPayable, Inputs: s},
				{Type: scoreapi.Fallback, Name: "", Flags: scoreapi.FlagPayable},
			})
		},
		Code: func(*mc.Exec) (any, error) { return nil, nil },
	}
}

const rich = "0x3635c9adc5dea00000" // 1000 coins

func OpenWorld(c *mc.Ctx, on bool) *world {
	w := OpenOn(c, MakeGenesis(1, mc.J{}, mc.J{}))
	w.on = on
	if on {
		w.send("startRewardIssue", mc.J{"height": Hex(w.n.Last().Height() + 3)})
		for i := 0; i < 3; i++ {
			w.now += ms
			w.block()
		}
	}
	w.now += 4 * win
	return w
}

func MakeGenesis(vals int, chain, havah mc.J) mc.J {
	acc := []any{mc.J{"name": "god", "address": mc.User(1).String(), "balance": rich},
		mc.J{"name": "treasury", "address": "hx1000000000000000000000000000000000000000", "balance": "0x0"},
		mc.J{"name": "governance", "address": Wallet(190).Address().String(), "balance": rich},
		mc.J{"name": "val", "address": Wallet(0).Address().String(), "balance": rich},
		mc.J{"name": "score", "address": mc.Score(1).String(), "balance": "0x0",
			"score": mc.J{"owner": Wallet(100).Address().String(), "contentType": "application/java", "content": "0x0102"}},
	}
	for i := 0; i < 3; i++ {
		acc = append(acc, mc.J{"name": fmt.Sprint("u", i), "address": Wallet(100 + i).Address().String(), "balance": rich})
	}
	ch := mc.J{"timestampThreshold": Hex(win / ms), "fee": mc.J{"stepPrice": "0x1", "stepLimit": mc.J{"invoke": "0x9502f900", "query": "0x2faf080"},
		"stepCosts": mc.J{"default": "0x64", "input": "0x2", "contractCall": "0x14"}}}
	for k, v := range chain {
		ch[k] = v
	}
	hv := mc.J{"usdtPrice": "0x1", "termPeriod": "0x1", "issueReductionCycle": "0x16800", "issueLimit": "0x10000", "issueAmount": "0x64", "hooverBudget": "0x0"}
	for k, v := range havah {
		hv[k] = v
	}
	ch["havah"] = hv
	return Genesis(vals, ch, acc...)
}

func OpenOn(c *mc.Ctx, g mc.J) *world {
	n, err := Open(mc.NewDB(), engine(), g, 0)
	mc.Must(err)
	w := &world{c: c, n: n}
	w.now = 0
	w.block()
	w.now = start
	w.block()
	return w
}

// send sends a call of the governance.
func (w *world) send(method string, params mc.J) []byte {
	w.seq++
	id, err := w.n.SM.SendTransaction(nil, 0, Tx(90, mc.J{"to": mc.System.String(), "timestamp": Hex(w.now), "nonce": Hex(int64(w.seq)), "dataType": "call",
		"data": mc.J{"method": method, "params": params}}))
	mc.Must(err)
	return id
}

// voters are those who vote for the last block.
func (w *world) voters() (r []int) {
	l := w.n.Last()
	if l.Height() < 2 {
		return []int{0}
	}
	p, err := w.n.BM.GetBlockByHeight(l.Height() - 1)
	mc.Must(err)
	vl := p.NextValidators()
	for i := 0; i < vl.Len(); i++ {
		v, _ := vl.Get(i)
		for k := 0; k < 8; k++ {
			if Wallet(k).Address().Equal(v.Address()) {
				r = append(r, k)
			}
		}
	}
	return
}

// propose makes the next block at this time.
func (w *world) propose(at int64) (module.BlockCandidate, error) {
	return w.n.Propose(w.n.Last().ID(), Votes(w.n.Last(), 0, at, 0))
}

// block makes one block.
func (w *world) block() {
	bc, err := w.propose(w.now)
	mc.Must(err)
	mc.Must(w.n.BM.Finalize(bc))
}

func list(l module.TransactionList) (r []module.Transaction) {
	for i := l.Iterator(); i.Has(); i.Next() {
		tx, _, err := i.Get()
		mc.Must(err)
		r = append(r, tx)
	}
	return
}

func in(l module.TransactionList, id []byte) bool {
	for _, tx := range list(l) {
		if bytes.Equal(tx.ID(), id) {
			return true
		}
	}
	return false
}

// goes checks that the chain goes on after a block with something was proposed or accepted; it gives the result of the transaction.
func (w *world) goes(id []byte) (module.Receipt, bool) {
	w.now += ms
	bc, err := w.propose(w.now)
	if err != nil {
		w.c.Fail("the chain stops: no block can be proposed on the block with it: %v", err)
		return nil, false
	}
	if _, err := w.n.Take(Bytes(bc), 0); err != nil {
		w.c.Fail("the block on the block with it is refused: %v", err)
		return nil, false
	}
	if err := w.n.BM.Finalize(bc); err != nil {
		w.c.Fail("the block on the block with it can not be finalized: %v", err)
		return nil, false
	}
	if id == nil {
		return nil, true
	}
	i, err := w.n.BM.GetTransactionInfo(id)
	if err != nil {
		w.c.Fail("the transaction is not found: %v", err)
		return nil, false
	}
	r, err := i.GetReceipt()
	if err != nil {
		w.c.Fail("no receipt: %v", err)
		return nil, false
	}
	return r, true
}

const (
	refuse = -1 // by everybody
	free   = 0
	taken  = 1 // by everybody
	works  = 2 // and the result is success
)

// client sends it, and makes blocks.
func (w *world) client(tx any, want int) bool {
	w.now += 4 * win
	n := w.c.Fails()
	var id []byte
	var err error
	w.c.Guard(func() { id, err = w.n.SM.SendTransaction(nil, 0, tx) })
	w.c.Trans(1)
	if err != nil && want > 0 {
		w.c.Fail("refused from a client: %v", err)
	}
	bc, perr := w.propose(w.now)
	if perr != nil {
		w.c.Fail("the chain stops: no block can be proposed after it was sent: %v", perr)
		return false
	}
	has := err == nil && in(bc.NormalTransactions(), id)
	if has && want == refuse {
		w.c.Fail("a block with it is proposed")
	}
	if !has && want > 0 {
		w.c.Fail("the block proposed is without it")
	}
	if _, err := w.n.Take(Bytes(bc), 0); err != nil {
		w.c.Fail("the block proposed after it was sent is refused: %v", err)
		return false
	}
	if err := w.n.BM.Finalize(bc); err != nil {
		w.c.Fail("the block proposed after it was sent can not be finalized: %v", err)
		return false
	}
	if !has {
		id = nil
	}
	r, ok := w.goes(id)
	if r != nil {
		w.c.Outcome("client", r.Status())
		if want == works && r.Status() != module.StatusSuccess {
			w.c.Fail("the result is %v", r.Status())
		}
	} else {
		w.c.Outcome("client", err == nil, has)
	}
	return ok && n == w.c.Fails()
}

// proposer has it in a block; body is the block's way to write it, if it is not tx.Bytes().
func (w *world) proposer(tx module.Transaction, body []byte, want int, before bool) bool {
	n := w.c.Fails()
	bc, err := w.propose(w.now)
	if err != nil {
		w.c.Fail("no block can be proposed: %v", err)
		return false
	}
	base := list(bc.NormalTransactions())
	bs := With(Bytes(bc), func(h *block.V2HeaderFormat, d *block.V2BodyFormat) {
		switch {
		case tx == nil:
			d.NormalTransactions = append(d.NormalTransactions, body)
		case before:
			w.n.SetTxs(h, d, append([]module.Transaction{tx}, base...)...)
		default:
			w.n.SetTxs(h, d, append(base, tx)...)
		}
	})
	return w.give(bs, tx, want, n)
}

func (w *world) give(bs []byte, tx module.Transaction, want, n int) bool {
	w.c.Trans(1)
	var o module.BlockCandidate
	var err error
	w.c.Guard(func() { o, err = w.n.Take(bs, 0) })
	w.c.Outcome("proposer", err == nil)
	if err != nil {
		if want > 0 {
			w.c.Fail("a block with it is refused: %v", err)
		}
		return n == w.c.Fails()
	}
	if want == refuse {
		w.c.Fail("a block with it is accepted")
	}
	if err := w.n.BM.Finalize(o); err != nil {
		w.c.Fail("the block with it can not be finalized: %v", err)
		return false
	}
	r, ok := w.goes(tx.ID())
	w.now += 4 * win
	if r != nil {
		w.c.Outcome("proposer", r.Status())
		if want == works && r.Status() != module.StatusSuccess {
			w.c.Fail("the result is %v", r.Status())
		}
	}
	return ok && n == w.c.Fails()
}

// fields of a transaction: the texts of their values in JSON; "" if there is none.
type fields map[string]string

func (f fields) text(sig string) string {
	var l []string
	for k := range f {
		if f[k] != "" {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	var b strings.Builder
	b.WriteString("{")
	for _, k := range l {
		fmt.Fprintf(&b, "%q:%s,", k, f[k])
	}
	if sig != "" {
		fmt.Fprintf(&b, "%q:%s,", "signature", sig)
	}
	return strings.TrimSuffix(b.String(), ",") + "}"
}

// Alt is a value for a field; want is what becomes of it.
type Alt struct {
	v    string
	want int
}

var (
	u0   = q(Wallet(100).Address().String())
	u1   = q(Wallet(101).Address().String())
	none = q(Wallet(150).Address().String())
	c1   = q(mc.Score(1).String())
	sys  = q(mc.System.String())
	gov  = q(Wallet(190).Address().String())
)

func q(s string) string { b, _ := json.Marshal(s); return string(b) }

var Order = []string{"version", "from", "to", "value", "stepLimit", "timestamp", "nid", "nonce", "dataType", "data", "sig"}

// Alts gives other values of a field; times are "@" and what is added.
var Alts = map[string][]Alt{
	"version": {{"", refuse}, {`"0x2"`, refuse}, {`"0x4"`, refuse}, {`"3"`, free}, {`3`, refuse}, {`null`, refuse}, {`"0x03"`, free}},
	"from": {{"", refuse}, {none, refuse}, {`null`, refuse}, {c1, refuse}, {`"hx00"`, refuse}, {`""`, refuse}, {q(mc.Score(1).String()[2:]), refuse},
		{q("cx" + Wallet(100).Address().String()[2:]), refuse}, {u1, free}},
	"to": {{"", free}, {u0, free}, {u1, free}, {c1, free}, {sys, free}, {q("cx" + strings.Repeat("ab", 20)), free},
		{q("hx1000000000000000000000000000000000000000"), free}, {`null`, free}, {`"cx0"`, free}, {`""`, free}, {`1`, refuse}},
	"value": {{"", free}, {`"0x0"`, free}, {`"-0x1"`, refuse}, {q(rich), refuse}, {`"0x10000000000000000000000000000000000000000000000000000000000000000"`, refuse},
		{`"1"`, free}, {`1`, free}, {`null`, free}, {`"0xzz"`, refuse}, {`""`, free}, {`"-0x0"`, free}},
	"stepLimit": {{"", refuse}, {`"0x0"`, refuse}, {`"0x63"`, refuse}, {`"-0x1"`, refuse}, {`"-0x100000"`, refuse}, {`"0x9502f901"`, free}, {q(rich), refuse}, {`null`, refuse}, {`1`, refuse}},
	"timestamp": {{"", refuse}, {`"0x0"`, refuse}, {`"-0x1"`, refuse}, {`"0x7fffffffffffffff"`, refuse}, {`"0x8000000000000000"`, refuse}, {`null`, refuse},
		{"@-5000000", refuse}, {"@-4999999", free}, {"@5000000", free}, {"@5000001", refuse}},
	"nid":   {{"", free}, {`"0x2"`, refuse}, {`"0x0"`, refuse}, {`null`, free}, {`"0x10000000000000001"`, refuse}, {`1`, free}, {`"-0x1"`, refuse}, {`"0x100000001"`, refuse}},
	"nonce": {{"", free}, {`"-0x1"`, free}, {`"0x100000000000000000000000000000000"`, free}, {`null`, free}, {`{}`, refuse}},
	"dataType": {{"", free}, {`null`, free}, {`""`, refuse}, {`"call"`, free}, {`"deploy"`, free}, {`"message"`, free}, {`"deposit"`, free}, {`"patch"`, free},
		{`"base"`, refuse}, {`"dsr"`, refuse}, {`"foo"`, refuse}, {`"CALL"`, refuse}, {`"transfer"`, refuse}, {`7`, refuse}},
	"data": {{"", free}, {`null`, free}, {`""`, free}, {`"0x00"`, free}, {`{}`, free}, {`[]`, free}, {`7`, free}, {`true`, free}, {`{"method":"run","params":{"p":"a"}}`, free},
		{`{"method":"run"}`, free}, {`{"method":"run","params":{"p":7}}`, free}, {`{"method":"run","params":["a"]}`, free}, {`{"method":"run","params":null}`, free},
		{`{"method":"none","params":{}}`, free}, {`{"method":""}`, free}, {`{"method":7}`, free}, {`{"method":"<init>"}`, free}, {`{"method":"fallback"}`, free},
		{`{"method":"getRevision"}`, free}, {`{"method":"setRevision","params":{"code":"0xffffffffffffffffffff"}}`, free}, {`{"method":"setRevision","params":{"code":null}}`, free},
		{`{"contentType":"application/java","content":"0x0102"}`, free}, {`{"contentType":"application/java","content":"zz"}`, free}, {`{"contentType":"application/zip","content":"0x00"}`, free},
		{`{"contentType":"foo","content":"0x00"}`, free}, {`{"content":"0x00"}`, free}, {`{"contentType":"application/java"}`, free},
		{`{"contentType":"application/java","content":"0x0102","params":{"x":"y"}}`, free}, {`{"contentType":"application/java","content":"0x0102","params":7}`, free},
		{`{"action":"add"}`, free}, {`{"action":"withdraw"}`, free}, {`{"action":"withdraw","amount":"0x1"}`, free}, {`{"action":"withdraw","amount":"-0x1"}`, free},
		{`{"action":"withdraw","id":"0x00"}`, free}, {`{"action":7}`, free}, {`{"action":"add","x":1}`, free},
		{`{"type":"skip_transaction","data":"0x00"}`, free}, {`{"type":"skip_transaction","data":null}`, free}, {skip(0), free}, {skip(9), free}, {skip(-1), free}, {`{"type":"foo"}`, free}, {`{"issueAmount":"0x64"}`, free}},
	"sig": {{"none", refuse}, {"other", refuse}, {`""`, refuse}, {`null`, refuse}, {`"AAAA"`, refuse}, {`7`, refuse}, {"short", refuse}, {"zero", refuse}, {"stale", refuse}},
}

// skip is a patch for the second block, by one vote which is not signed and of the kind k.
func skip(k int16) string {
	var p struct{ VoteList consensus.VoteList }
	p.VoteList.AddVote(&consensus.VoteMessage{})
	p.VoteList.VoteItems[0].PrototypeIndex = k
	return fmt.Sprintf(`{"type":"skip_transaction","data":"0x%x"}`, codec.BC.MustMarshalToBytes(&p))
}

type family struct {
	name string
	f    fields
	want int
}

func Families() []family {
	mk := func(name string, want int, kv ...string) family {
		f := fields{"version": `"0x3"`, "from": u0, "to": u1, "value": `"0x1"`, "stepLimit": `"0x100000"`, "timestamp": "@0", "nid": `"0x1"`, "nonce": `"0x7"`}
		for i := 0; i < len(kv); i += 2 {
			f[kv[i]] = kv[i+1]
		}
		return family{name, f, want}
	}
	return []family{
		mk("transfer", works),
		mk("transfer to a contract", works, "to", c1),
		mk("message", works, "dataType", `"message"`, "data", `"0x4142"`),
		mk("call", works, "to", c1, "dataType", `"call"`, "data", `{"method":"run","params":{"p":"x"}}`),
		mk("system call", works, "from", gov, "to", sys, "value", "", "dataType", `"call"`, "data", `{"method":"setStepPrice","params":{"price":"0x1"}}`),
		mk("deploy", works, "to", sys, "value", "", "dataType", `"deploy"`, "data", `{"contentType":"application/java","content":"0x0103"}`),
		mk("deposit", taken, "to", c1, "dataType", `"deposit"`, "data", `{"action":"add"}`),
		mk("transfer with data", works, "data", `{"a":"b c"}`),
		mk("patch", free, "from", q(Wallet(0).Address().String()), "to", sys, "value", "", "dataType", `"patch"`, "data", `{"type":"skip_transaction","data":"0x00"}`),
	}
}

// wants says what becomes of a transaction with those changes.
func wants(fam family, ch map[string]Alt) int {
	if len(ch) == 0 {
		return fam.want
	}
	for _, a := range ch {
		if a.want == refuse {
			return refuse
		}
	}
	get := func(k string) string {
		if a, ok := ch[k]; ok {
			return a.v
		}
		return fam.f[k]
	}
	var o map[string]any
	obj := json.Unmarshal([]byte(get("data")), &o) == nil && o != nil
	switch v, m := get("value"), ""; get("dataType") {
	case `"call"`:
		m, _ = o["method"].(string)
		if m == "" {
			return refuse
		}
	case `"deploy"`:
		if zero := v == "" || v == `null` || v == `"0x0"` || v == `"-0x0"` || v == `""`; !zero || get("data") == "" || get("data") != `null` && !obj {
			return refuse
		}
	case `"deposit"`, `"patch"`:
		if get("data") == "" {
			return refuse
		}
	}
	for _, a := range ch {
		if a.want == taken {
			return taken
		}
	}
	return free
}

func wallet(from string) module.Wallet {
	for _, i := range []int{0, 100, 101, 150, 190} {
		if q(Wallet(i).Address().String()) == from {
			return Wallet(i)
		}
	}
	return Wallet(100)
}

// sign gives the text of the signature of the transaction of the text; "" if it has no ID.
func sign(w module.Wallet, text string) string {
	tx, err := transaction.NewTransactionFromJSON([]byte(text))
	if err != nil {
		return q(base64.StdEncoding.EncodeToString(make([]byte, 65)))
	}
	var id []byte
	func() {
		defer func() { recover() }()
		id = tx.ID()
	}()
	if len(id) != 32 {
		return q(base64.StdEncoding.EncodeToString(make([]byte, 65)))
	}
	s, err := w.Sign(id)
	mc.Must(err)
	return q(base64.StdEncoding.EncodeToString(s))
}

// text makes the transaction of a family with changes at a time.
func (w *world) text(fam family, ch map[string]Alt, at int64) string {
	f := fields{}
	for k, v := range fam.f {
		f[k] = v
	}
	sig := ""
	for k, a := range ch {
		if k == "sig" {
			sig = a.v
		} else {
			f[k] = a.v
		}
	}
	w.seq++
	if f["nonce"] == `"0x7"` {
		f["nonce"] = q(Hex(int64(w.seq)))
	}
	when := func(s string) string {
		if strings.HasPrefix(s, "@") {
			var d int64
			fmt.Sscanf(s[1:], "%d", &d)
			return q(Hex(at + d))
		}
		return s
	}
	f["timestamp"] = when(f["timestamp"])
	switch sig {
	case "":
		sig = sign(wallet(f["from"]), f.text(""))
	case "none":
		sig = ""
	case "other":
		sig = sign(Wallet(101), f.text(""))
		if f["from"] == u1 {
			sig = sign(Wallet(100), f.text(""))
		}
	case "short": // without the part which tells the key
		sig = q(base64.StdEncoding.EncodeToString(bytes.Repeat([]byte{1}, 64)))
	case "zero":
		sig = q(base64.StdEncoding.EncodeToString(make([]byte, 65)))
	case "stale":
		g := fields{}
		for k, v := range f {
			g[k] = v
		}
		g["nonce"] = q(Hex(int64(w.seq) + 1<<40))
		sig = sign(wallet(f["from"]), g.text(""))
	}
	return f.text(sig)
}

// run runs a case by one of the ways; the chain starts again after a failure.
func (w *world) run(fam family, ch map[string]Alt, way string, fresh func() *world) *world {
	var d []string
	for _, k := range Order {
		if a, ok := ch[k]; ok {
			d = append(d, fmt.Sprintf("%s=%s", k, a.v))
		}
	}
	w.c.Case("%s, %s (rewards %v): %v", way, fam.name, w.on, d)
	w.c.State(fam.name, way, w.on, d)
	want := wants(fam, ch)
	ok := true
	switch way {
	case "client":
		ok = w.client(w.text(fam, ch, w.now+4*win), want)
	case "node":
		tx, err := parse(w.text(fam, ch, w.now+4*win))
		if err != nil {
			if want > 0 {
				w.c.Fail("refused: %v", err)
			}
			return w
		}
		ok = w.client(tx, want)
	case "proposer":
		if w.now <= w.n.Last().Timestamp() {
			w.now += ms
		}
		t := w.text(fam, ch, w.now)
		tx, err := parse(t)
		if err != nil {
			if want > 0 {
				w.c.Fail("refused: %v", err)
			}
			ok = w.proposer(nil, []byte(t), refuse, false)
		} else {
			if p := transaction.Unwrap(tx.(transaction.Transaction)).Group() == module.TransactionGroupPatch; p && want > 0 {
				want = free
			}
			ok = w.proposer(tx, nil, want, false)
		}
	}
	if !ok {
		w.n.Close()
		return fresh()
	}
	return w
}

// parse gives the transaction as it is between nodes.
func parse(text string) (module.Transaction, error) {
	tx, err := transaction.NewTransactionFromJSON([]byte(text))
	if err != nil {
		return nil, err
	}
	var r module.Transaction
	r, err = transaction.NewTransaction(tx.Bytes())
	return r, err
}

var Ways = []string{"client", "node", "proposer"}

// Family runs all transactions of a family with one or two changes.
func Family(c *mc.Ctx, on bool, fi int, way string) {
	fresh := func() *world { return OpenWorld(c, on) }
	w := fresh()
	defer func() { w.n.Close() }()
	fam := Families()[fi]
	w = w.run(fam, nil, way, fresh)
	for i, k := range Order {
		for _, a := range Alts[k] {
			w = w.run(fam, map[string]Alt{k: a}, way, fresh)
			for _, k2 := range Order[i+1:] {
				if !c.Thorough() && !(k == "dataType" && k2 == "data") {
					continue
				}
				for _, b := range Alts[k2] {
					w = w.run(fam, map[string]Alt{k: a, k2: b}, way, fresh)
				}
			}
		}
	}
}

// One runs one transaction of a family with those changes, and what becomes of it; -1 if it is refused, 1 if it is taken.
func One(on bool, fam int, way string, want int, changes ...string) {
	c := mc.Demo()
	fresh := func() *world { return OpenWorld(c, on) }
	w := fresh()
	ch := map[string]Alt{}
	for i := 0; i < len(changes); i += 2 {
		ch[changes[i]] = Alt{changes[i+1], want}
	}
	f := Families()[fam]
	w = w.run(f, ch, way, fresh)
	w.n.Close()
}

// Big sends a message of a number of bytes by all ways.
func Big(n, want int) {
	c := mc.Demo()
	fresh := func() *world { return OpenWorld(c, false) }
	w := fresh()
	for _, way := range Ways {
		fam := Families()[2]
		fam.f["data"], fam.f["stepLimit"], fam.want = q(strings.Repeat("a", n-2)), `"0x1000000"`, want
		w = w.run(fam, nil, way, fresh)
	}
	w.n.Close()
}
