"""Planted bugs in the execution of transactions and calls (Go)."""
from seeds3 import gseed

C = 'service/contract/'
F = C + 'callframe.go'
CC = C + 'callcontext.go'
H = C + 'callhandler.go'
T = C + 'transferhandler.go'
X = 'service/transaction/transactionhandler.go'
HEAD = '''
package main

import (
	"vgo/mc"
	. "vgo/tx"
)

func set(k, v string) In { return In{K: "set", A: k, B: v} }
func get(k string) In    { return In{K: "get", A: k} }
func bal(n string) In    { return In{K: "bal", A: n} }
func ev(s string) In     { return In{K: "ev", A: s} }
func burn(n int64) In    { return In{K: "burn", N: n} }
func fail(n int64) In    { return In{K: "fail", N: n} }
func call(to, m string, v int64, catch bool, body ...In) In {
	return In{K: "call", To: to, Method: m, Value: v, Catch: catch, Body: body}
}
func run(m string, v int64, body ...In) Tx {
	return Tx{From: "U1", To: "C1", Kind: "call", Method: m, Value: v, Limit: 2000, Body: body}
}

var _ = []interface{}{set, get, bal, ev, burn, fail, call, run}

// demo plays blocks on a new chain and compares it with the reference after each.
func demo(price int64, blocks ...[]Tx) {
	d := mc.Demo()
	w := Open(d, Config{
		Rules: Rules{Costs: Costs{Default: 100, Input: 2, Call: 20}, Price: price, Invoke: 3000, Rev: 7,
			Owner: map[string]string{"C1": "U1", "C2": "U2", "C3": "U1"},
			Kinds: map[string]Kind{
				"C1":  {Methods: map[string]bool{"run": false, "pay": true, "look": false}, Fallback: true, OnCoins: Prog{ev("got"), set("f", "0")}},
				"C2":  {Methods: map[string]bool{"run": false, "pay": true, "look": false}, Fallback: true, OnCoins: Prog{ev("f")}},
				"C3":  {Methods: map[string]bool{"run": false, "look": false}},
				"SYS": {Methods: map[string]bool{"getRevision": false}, Sys: true, Fallback: true},
			}},
		Bal: map[string]int64{"U1": 1 << 40, "U2": 5000, "C1": 50, "C2": 50, "C3": 5},
	})
	defer w.C.Close()
	for _, b := range blocks {
		w = w.Step(d, b...)
	}
}

'''


def tseed(id, edits, needs, breaks, body):
    gseed(id, 'C24', edits, needs, breaks, HEAD + 'func main() {\n' + body.strip('\n') + '\n}\n')


tseed('C24-lost-coins', [
    (CC, "			cc.Reset(frame.snapshot)\n		}\n	}\n	if success {\n", "			if _, ok := frame.handler.(SyncContractHandler); !ok {\n				cc.Reset(frame.snapshot)\n			}\n		}\n	}\n	if success {\n"),
], 'a contract sends coins to an address of the wrong kind and goes on', 'the coins are gone from the contract although nobody has them',
'''
	demo(1, []Tx{run("run", 0, call("HC1", "x", 2, true), bal("C1"))})
''')

tseed('C24-event-order', [
    (F, "		f.eventLogs.PushBackList(&frame.eventLogs)\n", "		f.eventLogs.PushFrontList(&frame.eventLogs)\n"),
], 'a contract makes an event before it calls another one which makes events', 'the receipt tells them in the wrong order',
'''
	demo(1, []Tx{run("run", 0, ev("x"), call("C2", "run", 0, false, ev("y")))})
''')

tseed('C24-exact-limit', [
    (F, "	if f.stepUsed.Cmp(f.stepLimit) > 0 {\n", "	if c := f.stepUsed.Cmp(f.stepLimit); c > 0 || c == 0 && f.parent != nil && f.parent.handler != nil {\n"),
], 'an inner call, or what it pays for being called, uses exactly the steps it is given', 'it fails for want of steps',
'''
	i := call("U3", "", 1, true)
	i.Limit = 20
	demo(1, []Tx{run("run", 0, i, bal("U3"))})
''')

tseed('C24-self-transfer', [
    (T, "	as1.SetBalance(new(big.Int).Sub(bal1, h.Value))\n\n	as2 := cc.GetAccountState(h.To.ID())\n", "	as2 := cc.GetAccountState(h.To.ID())\n	bal2 := as2.GetBalance()\n	as1.SetBalance(new(big.Int).Sub(bal1, h.Value))\n"),
    (T, "	bal2 := as2.GetBalance()\n	as2.SetBalance(", "	as2.SetBalance("),
], 'a contract calls itself with coins', 'it has more coins afterwards',
'''
	demo(1, []Tx{run("run", 0, call("C1", "pay", 3, false, get("a")), bal("C1"))})
''')

tseed('C24-zero-transfer-event', [
    (T, "	if h.From.IsContract() && h.Value.Sign() > 0 {\n", "	if h.From.IsContract() {\n"),
], 'a contract calls an account without coins', 'an event tells a transfer of nothing',
'''
	demo(1, []Tx{run("run", 0, call("U3", "", 0, false))})
''')

tseed('C24-fallback-readonly', [
    (H, "		if method.IsReadOnly() != h.cc.ReadOnlyMode() {\n", "		if method.IsReadOnly() != h.cc.ReadOnlyMode() && !method.IsFallback() {\n"),
], 'a read-only method of a contract calls the fallback of another contract or of the system without coins', 'the call is made instead of being denied',
'''
	demo(1, []Tx{run("look", 0, call("SYS", "", 0, true), call("C2", "", 0, true))})
''')

tseed('C24-clipped-check', [
    (X, "	value := new(big.Int).Mul(cc.StepPrice(), th.stepLimit)\n", "	value := new(big.Int).Mul(cc.StepPrice(), cc.StepAvailable())\n"),
], 'a sender asks for more steps than the chain allows and has coins for those allowed only', 'the transaction is executed although its sender cannot pay for its limit',
'''
	demo(3, []Tx{{From: "U1", To: "U4", Kind: "transfer", Value: 9010, Limit: 200}, {From: "U4", To: "U3", Kind: "transfer", Value: 5, Limit: 4000}})
''')

tseed('C24-minimum-not-paid', [
    (X, "	minSteps := big.NewInt(cc.StepsFor(state.StepTypeDefault, 1))\n", "	stepToPay := stepUsed\n	minSteps := big.NewInt(cc.StepsFor(state.StepTypeDefault, 1))\n"),
    (X, "	stepToPay := stepUsed\n	var redeemed", "	var redeemed"),
], 'the limit of a transaction is less than what any transaction costs', 'the sender pays less than the receipt tells',
'''
	demo(1, []Tx{{From: "U1", To: "U3", Kind: "transfer", Value: 5, Limit: 60}})
''')

tseed('C24-fee-of-broke', [
    ('service/transition.go', "			virtualFee.Add(virtualFee, new(big.Int).Mul(used, r.StepPrice()))\n			if fixLostFeeByDeposit {\n				gatheredFee.Add(gatheredFee, r.Fee())\n",
     "			virtualFee.Add(virtualFee, new(big.Int).Mul(used, r.StepPrice()))\n			if fixLostFeeByDeposit {\n				fee := new(big.Int).Mul(used, ctx.StepPrice())\n				if r.Status() == module.StatusSuccess {\n					fee = r.Fee()\n				}\n				gatheredFee.Add(gatheredFee, fee)\n"),
], 'a transaction fails because its sender has less than the fee', 'the treasury gets a fee which nobody paid',
'''
	demo(1, []Tx{{From: "U4", To: "U3", Kind: "transfer", Value: 5, Limit: 200}})
''')

tseed('C24-failed-steps-free', [
    (CC, "		err := ach.SendResult(status, current.getStepUsed(), result)\n", "		used := current.getStepUsed()\n		if _, ok := current.handler.(SyncContractHandler); ok && status != nil {\n			used.SetInt64(0)\n		}\n		err := ach.SendResult(status, used, result)\n"),
], 'a contract sends coins to an account and fails to, and goes on', 'the attempt costs nothing',
'''
	demo(1, []Tx{run("run", 0, call("U3", "", 999, true))})
''')

tseed('C24-frames-kept', [
    (CC, "	if !target.isReadOnly {\n		cc.Reset(target.snapshot)\n	}\n	for _, h", "	for _, h"),
    ('service/transition_se.go', "			if err := ctx.Reset(wcs); err != nil {\n				t.log.Errorf(\"Fail to revert status on rerun err=%+v\", err)\n				return errors.CriticalUnknownError.Wrapf(err, \"FailToResetForRetry\")\n			}\n", "			if retry > 0 {\n				if err := ctx.Reset(wcs); err != nil {\n					t.log.Errorf(\"Fail to revert status on rerun err=%+v\", err)\n					return errors.CriticalUnknownError.Wrapf(err, \"FailToResetForRetry\")\n				}\n			}\n"),
], 'the engine dies in the middle of a call which has changed something', 'the transaction is executed again on top of the half of it which was done',
'''
	demo(1, []Tx{run("run", 0, call("C2", "pay", 3, false, get("a")), bal("C1"), In{K: "die", N: 1})})
''')
