"""Planted bugs in the validators of the HAVAH platform (Go)."""
from seeds3 import gseed

H = 'havah/hvh/'
S = H + 'hvhstate/state.go'
VS = H + 'hvhstate/validatorstatus.go'
D = H + 'decentralization.go'
X = H + 'extension.go'
HEAD = '''
package main

import (
	"fmt"

	. "vgo/hv"
)

func vreg(owner string, node int, grade string) Op {
	return Op{K: "vreg", From: Gov, To: owner, Node: node, Str: []string{grade, fmt.Sprintf("n%d", node)}}
}
func vunreg(owner string) Op         { return Op{K: "vunreg", From: owner, To: owner} }
func venable(from, owner string) Op  { return Op{K: "venable", From: from, To: owner} }
func vkey(owner string, node int) Op { return Op{K: "vkey", From: owner, Node: node} }
func vcount(n int64) Op              { return Op{K: "vcount", From: Gov, N: n} }
func vparams(p, a int64) Op          { return Op{K: "vparams", From: Gov, N: p, D: a} }
func no(ids ...int64) Op             { return Op{K: "vote", IDs: ids} }

type B = []Op

var _ = []interface{}{vreg, vunreg, venable, vkey, vcount, vparams, no}

// at has active validators n0 (main, Own1) and n1 (sub, Own2), and n2 (Alice), n3 (Bob) in reserve; terms of 4 blocks from block 3.
func at(rev, period, allow int64) Config {
	return Config{Rev: rev, Start: 3, Period: 4, Cycle: 100, Limit: 100, Issue: I(1000), Budget: I(0), Price: I(5), Wallet: I(1000), Vals: []int{0, 1},
		Setup: B{vreg(Own1, 0, "main"), vreg(Own2, 1, "sub"), vreg(Alice, 2, "sub"), vreg(Bob, 3, "sub"), vcount(2), vparams(period, allow)}}
}

'''


def vseed(id, edits, needs, breaks, body):
    gseed(id, 'C23', edits, needs, breaks, HEAD + 'func main() {\n' + body.strip('\n') + '\n}\n')


vseed('C23-gov-enable-count', [
    (VS, "	err := vs.enable()\n	vs.enabledCount = 0\n	return err\n", "	if vs.enabledCount >= hvhmodule.MaxEnableCount {\n		vs.enabledCount = -1\n	}\n	return vs.enable()\n"),
], 'the governance enables a validator whose owner has enabled it fewer times than allowed', 'the count of enablings is not restored, so the owner runs out of them too early',
'''
	c := at(7, 1, 0)
	c.Period = 20
	Demo(c, nil, B{no(1)}, B{venable(Own2, Own2)}, B{vcount(2)}, B{Op{K: "vote", IDs: []int64{0}, Str: []string{Node(1)}}}, B{venable(Gov, Own2)}, nil)
''')

vseed('C23-votes-after-enable', [
    (S, "	vs.ResetNonVotes()\n	return db.Set(ToKey(owner), vs.Bytes())\n", "	if !vs.Enabled() || calledByGov {\n		vs.ResetNonVotes()\n	}\n	return db.Set(ToKey(owner), vs.Bytes())\n"),
], 'the owner enables its penalized validator', 'the votes missed before still count, so it is penalized again for the first vote it misses',
'''
	c := at(7, 1, 1)
	Demo(c, nil, nil, B{no(1)}, B{no(1)}, B{venable(Own2, Own2)}, nil)
''')

vseed('C23-index-after-shrink', [
    (S, "		// If svIndex is invalid, reset the index to 0\n		svIndex = 0\n", "		// If svIndex is invalid, reset the index to 0\n		svIndex %= size\n"),
], 'the turn is at the last of four or more sub validators when so many are unregistered that it is beyond the next but one', 'the wrong validator is next',
'''
	c := at(7, 1, 0)
	c.Period, c.Vals = 3, []int{0}
	c.Setup = B{vreg(Own1, 1, "sub"), vreg(Own2, 2, "sub"), vreg(Alice, 3, "sub"), vreg(Bob, 4, "sub"), vreg(Mgr, 5, "sub"), vcount(4), vparams(0, 0)}
	Demo(c, nil, B{vcount(1)}, B{vunreg(Alice)}, B{vunreg(Own1)}, B{vunreg(Own2)}, nil, nil, nil, nil)
''')

vseed('C23-allowance-raise-only', [
    (S, "	if ns.NonVoteAllowance() != allowance {\n", "	if ns.NonVoteAllowance() < allowance {\n"),
], 'the allowance of missed votes is lowered and the next term starts', 'validators may go on missing votes as before',
'''
	c := at(7, 1, 2)
	Demo(c, nil, B{vparams(1, 0)}, nil, nil, nil, nil, B{no(1)}, nil)
''')

vseed('C23-main-penalty', [
    (S, "		if vi.Grade() != GradeMain {\n			penalized = vs.NonVotes() > nonVoteAllowance\n", "		if vi.Grade() != GradeMain || vs.enabledCount > 0 {\n			penalized = vs.NonVotes() >= nonVoteAllowance && (vs.enabledCount > 0 || vs.NonVotes() > nonVoteAllowance)\n"),
], 'a validator which was enabled once misses as many votes as are allowed', 'it is penalized one missed vote too early',
'''
	c := at(7, 1, 1)
	c.Period = 20
	Demo(c, nil, nil, B{no(1)}, B{no(1)}, B{venable(Own2, Own2)}, B{Op{K: "vote", IDs: []int64{0}, Str: []string{Node(1)}}}, nil)
''')

vseed('C23-remove-after-swap', [
    (D, "			validatorState.Remove(info.validator)\n", "			if validatorState.Len() > 1 {\n				validatorState.Remove(info.validator)\n			}\n"),
], 'all active validators are penalized in one block and nobody is in reserve', 'the last of them stays active although the event says it was removed',
'''
	c := at(7, 1, 0)
	c.Vals = []int{1, 2}
	c.Setup = B{vreg(Own2, 1, "sub"), vreg(Alice, 2, "sub"), vcount(2), vparams(1, 0)}
	Demo(c, nil, nil, B{no(0, 1)}, nil, nil, nil)
''')

vseed('C23-same-key-btp', [
    (X, "	if cc.Revision().Value() >= hvhmodule.RevisionBTP2 {\n		err = es.setBTPPublicKey(cc, newNode, hvhmodule.DSASecp256k1, pubKey)\n	}\n\n	es.logger.Debugf(\"SetNodePublicKey() end",
        "	if cc.Revision().Value() >= hvhmodule.RevisionBTP2 && !oldNode.Equal(newNode) {\n		err = es.setBTPPublicKey(cc, newNode, hvhmodule.DSASecp256k1, pubKey)\n	}\n\n	es.logger.Debugf(\"SetNodePublicKey() end"),
], 'a validator registered at revision 5 sets its key again, and then a BTP network is opened', 'it has no BTP key, so the network is refused or the validator is passed over',
'''
	c := at(5, 1, 0)
	Demo(c, nil, B{vkey(Own1, 0)}, B{vkey(Own2, 1)}, B{{K: "btpopen", From: Gov}}, nil, nil)
''')

vseed('C23-old-key-free', [
    (S, "	if err = s.addNodeToOwnerMap(newNode, owner); err != nil {\n		return nil, nil, err\n	}\n	if err = db.Set(ToKey(owner), vi.Bytes()); err != nil {\n",
        "	if err = s.getDictDB(hvhmodule.DictNodeToOwner, 1).Delete(ToKey(oldNode)); err == nil {\n		err = s.addNodeToOwnerMap(newNode, owner)\n	}\n	if err != nil {\n		return nil, nil, err\n	}\n	if err = db.Set(ToKey(owner), vi.Bytes()); err != nil {\n"),
], 'a validator changes the key of its node and votes are missed with the old one, or somebody registers the old key', 'the votes of the blocks in between count for nobody, and the old key can be taken by another owner',
'''
	c := at(7, 1, 0)
	Demo(c, nil, B{vkey(Own2, 5)}, B{Op{K: "vote", IDs: []int64{1}, Str: []string{Node(0), Node(1)}}}, nil)
''')

vseed('C23-penalty-of-next-term', [
    (H + 'base.go', "		if hvhstate.IsItTimeToCheckBlockVote(blockIndexInTerm, ns.BlockVoteCheckPeriod()) {\n", "		if hvhstate.IsItTimeToCheckBlockVote(blockIndexInTerm, es.state.GetBlockVoteCheckPeriod()) {\n"),
], 'the governance changes how often votes are looked at, in the middle of a term', 'the change takes effect in the running term',
'''
	c := at(7, 2, 0)
	Demo(c, nil, B{vparams(1, 0)}, B{no(1)}, nil)
	Demo(c, nil, B{vparams(1, 0)}, nil, B{no(1)}, nil)
	for _, p := range []int64{0, 3} {
		Demo(c, nil, B{vparams(p, 0)}, B{no(1)}, nil)
		Demo(c, nil, B{vparams(p, 0)}, nil, B{no(1)}, nil)
		Demo(c, nil, B{vparams(p, 0)}, B{no(1)}, B{no(1)}, nil)
	}
''')

vseed('C23-candidate-disabled', [
    (S, "				if vs.Enabled() {\n					// Check", "				if !vs.Disqualified() && (vs.Enabled() || activeValidators == nil) {\n					// Check"),
], 'a term starts while a sub validator is penalized and it is its turn', 'the penalized validator becomes active again by itself',
'''
	c := at(7, 1, 0)
	c.Setup[4] = vcount(4)
	Demo(c, nil, nil, B{no(1)}, nil, nil, nil, nil, nil)
''')

vseed('C23-unregister-disabled', [
    (S, "	vs.SetDisqualified()\n	key := ToKey(owner)\n", "	vs.flags = FlagDisqualified\n	key := ToKey(owner)\n"),
], 'a penalized validator is unregistered', 'its status does not tell any more that it was penalized',
'''
	c := at(7, 1, 0)
	Demo(c, nil, nil, B{no(1)}, B{vunreg(Own2)}, nil)
''')

vseed('C23-count-event', [
    (D, "	if nc := validatorState.Len(); oc != nc {\n", "	if nc := oc - len(m) + len(validatorsToAdd); oc != nc && i > 0 {\n"),
], 'more validators are penalized in a block than there are in reserve, none', 'no event tells the smaller number of active validators',
'''
	c := at(7, 1, 0)
	c.Setup = B{vreg(Own1, 0, "main"), vreg(Own2, 1, "sub"), vcount(2), vparams(1, 0)}
	Demo(c, nil, nil, B{no(1)}, nil, nil)
''')
