"""Planted bugs around the validity of transactions and blocks (Go)."""
from seeds3 import gseed

V3 = 'service/transaction/transaction_v3.go'
HEAD = '''
package main

import (
	"vgo/entry"
	"vgo/mc"
	"vgo/node"
)

var _ = mc.Must
var _ = node.Wallet

'''


def eseed(id, edits, needs, breaks, body):
    gseed(id, id.split('-')[0], edits, needs, breaks, HEAD + 'func main() {\n' + body.strip('\n') + '\n}\n')


eseed('C26-self-transfer', [
    (V3, '''	if update {
		as1.SetBalance(new(big.Int).Sub(balance1, trans))
		if tx.Value != nil {
			balance2 := as2.GetBalance()
			as2.SetBalance(''', '''	if update {
		balance2 := as2.GetBalance()
		as1.SetBalance(new(big.Int).Sub(balance1, trans))
		if tx.Value != nil {
			as2.SetBalance('''),
], 'a transfer to oneself is followed in the same block by one which can not be paid for', 'the check of a block counts coins twice, so a block with a transaction which fails to pay is proposed and accepted',
'''
	entry.Pays("proposer", entry.Pay{0, 0, 5}, entry.Pay{0, 1, 106})
	entry.Pays("client", entry.Pay{0, 0, 5}, entry.Pay{0, 1, 5}, entry.Pay{0, 1, 5})
''')

eseed('C26-network-low-bits', [
    (V3, '	return int(tx.NID.Value) == nid\n', '	return int32(tx.NID.Value) == int32(nid)\n'),
], 'the network of a transaction is the one of the chain in its low 32 bits', 'a transaction of another network is executed',
'''
	entry.One(false, 0, "client", -1, "nid", `"0x100000001"`)
	entry.One(false, 0, "proposer", -1, "nid", `"0x100000001"`)
''')

eseed('C26-signer-id', [
    (V3, '	if addr.Equal(tx.From()) {\n', '	if bytes.Equal(addr.ID(), tx.From().ID()) {\n'),
], 'the sender is the address of a contract of the same ID as the signer', 'a transaction of a sender which is no account is executed',
'''
	from := "\\"cx" + node.Wallet(100).Address().String()[2:] + "\\""
	entry.One(false, 0, "client", -1, "from", from)
	entry.One(false, 0, "node", -1, "from", from)
	entry.One(false, 0, "proposer", -1, "from", from)
''')

eseed('C26-first-only', [
    ('service/transactionpool.go', '		if err := tx.PreValidate(wc, true); err != nil {\n			if e.err', '		if err := tx.PreValidate(wc, len(txs) == 0); err != nil {\n			if e.err'),
], 'a sender has three transactions in the pool, and coins for the first ones', 'the node proposes a block which all nodes refuse',
'''
	entry.Pays("client", entry.Pay{0, 1, 0}, entry.Pay{0, 1, 0}, entry.Pay{0, 1, 0})
	entry.Pays("client", entry.Pay{0, 1, 0}, entry.Pay{0, 1, 0}, entry.Pay{0, 1, 5}, entry.Pay{0, 1, 5})
	entry.Pays("client", entry.Pay{0, 1, 5}, entry.Pay{0, 1, 5}, entry.Pay{0, 1, 5}, entry.Pay{0, 1, 5}, entry.Pay{0, 1, 5})
''')

eseed('C26-steps-of-plain-data', [
    (V3, "		minStep := big.NewInt(wc.StepsFor(state.StepTypeDefault, 1) + wc.StepsFor(state.StepTypeInput, cnt))\n",
     "		minStep := big.NewInt(wc.StepsFor(state.StepTypeDefault, 1))\n		if tx.DataType != nil {\n			minStep.Add(minStep, big.NewInt(wc.StepsFor(state.StepTypeInput, cnt)))\n		}\n"),
], 'a transfer with data but without a type of data has just less steps than needed', 'the transaction which can not pay for its size is put in a block',
'''
	for _, way := range entry.Ways {
		entry.One(false, 7, way, -1, "stepLimit", `"0x65"`)
	}
''')

eseed('C26-old-transaction', [
    ('service/transition.go', '	case nbv >= module.BlockVersion2:\n', '	case nbv > module.BlockVersion2:\n'),
], 'a proposer puts a transaction of the old version in a block', 'the block with a transaction which clients can not send is accepted',
'''
	entry.Layout(false, "x", "old", "")
	entry.Layout(false, "ux", "old", "")
''')

eseed('C26-vote-checks', [
    ('havah/platform.go', '(termSeq >= 0 && blockIndex == 0) || es.IsItTimeToCheckBlockVote(blockIndex)', 'termSeq >= 0 && (blockIndex == 0 || blockIndex != termPeriod-1 && es.IsItTimeToCheckBlockVote(blockIndex))'),
], 'votes are checked at the last block of a term', 'the block which its proposer makes is refused by all nodes and the chain stops',
'''
	for _, check := range []int64{1, 2, 3} {
		for _, vals := range []int{1, 4} {
			entry.Live(mc.Demo(), entry.Life{Period: 4, Cycle: 2, Limit: 3, Amount: 100, Rev: 4, Vals: vals, Count: 1, Check: check, Allow: 1, Absent: -1, Blocks: 21})
		}
	}
''')

eseed('C26-value-of-calls', [
    (V3, '''	if tx.Value != nil {
		trans.Add(trans, &tx.Value.Int)
	}

	as1''', '''	if tx.Value != nil && !contract.IsCallableDataType(tx.DataType) {
		trans.Add(trans, &tx.Value.Int)
	}

	as1'''),
], 'a call takes more coins along than its sender has', 'the transaction which its sender can not pay for is put in a block',
'''
	for _, way := range entry.Ways {
		entry.One(false, 3, way, -1, "value", "\\"0x3635c9adc5dea00000\\"")
		entry.One(false, 1, way, -1, "value", "\\"0x3635c9adc5dea00000\\"")
	}
''')

eseed('C26-size-in-clients', [
    (V3, '	} else if n > txMaxDataSize {\n', '	} else if n > txMaxDataSize+1 {\n'),
], 'the data is one byte larger than the limit', 'a transaction of more than the limit of size is executed',
'''
	entry.Big(512*1024, 1)
	entry.Big(512*1024+1, -1)
	entry.Big(512*1024+2, -1)
''')


def tseed(id, edits, needs, breaks, body):
    gseed(id, id.split('-')[0], edits, needs, breaks, HEAD.replace('vgo/entry', 'vgo/take') + 'func main() {\n' + body.strip('\n') + '\n}\n')


CVL = 'consensus/commitvotelist.go'
tseed('C27-two-thirds', [
    (CVL, '	twoThirds := voters * 2 / 3\n	return voted > twoThirds\n', '	twoThirds := voters - voters/3\n	return voted >= twoThirds\n'),
], 'the number of validators is a multiple of three', 'a block with the votes of just two thirds is accepted',
'''
	take.VotesOf(mc.Demo(), 4)
	take.VotesOf(mc.Demo(), 3)
''')

tseed('C27-vote-counted-twice', [
    (CVL, '		if vset[index] {\n', '		if vset[index] && i < validators.Len()-1 {\n'),
], 'the list of votes is as long as the one of validators and its last vote repeats another', 'a vote is counted twice',
'''
	take.VotesOf(mc.Demo(), 3)
	take.VotesOf(mc.Demo(), 4)
''')

tseed('C27-voters-of-next', [
    ('block/blockv2.go', '	prevBlk, err := ctx.GetBlockByHeight(b.Height() - 1)\n	if err != nil {\n		return nil, err\n	}\n	return prevBlk.NextValidators(), nil\n',
     '	prevBlk, err := ctx.GetBlockByHeight(b.Height() - 1)\n	if err != nil {\n		return nil, err\n	}\n	vl := prevBlk.NextValidators()\n	if nvl := b.NextValidators(); nvl != nil && nvl.Len() > vl.Len() {\n		vl = nvl\n	}\n	return vl, nil\n'),
], 'the set of validators grows', 'the votes of those who are not yet validators are asked for, and the chain stops',
'''
	take.Change(mc.Demo(), 4, 3)
	take.Change(mc.Demo(), 1, 4)
''')

tseed('C27-time-of-vote', [
    (CVL, '	return (ts[l/2-1] + ts[l/2]) / 2\n', '	return ts[l/2-1] + (ts[l/2] - ts[l/2-1])/2*1 - (ts[l/2]-ts[l/2-1])%2\n'),
], 'the number of votes is even and the two in the middle are an odd time apart', 'the right time is refused and a wrong one is accepted',
'''
	take.VotesOf(mc.Demo(), 4)
''')

tseed('C27-same-time', [
    ('block/blockv2.go', '	if b.Height() > 1 && prev.Timestamp() >= b.Timestamp() {\n', '	if b.Height() > 1 && prev.Timestamp() > b.Timestamp() {\n'),
], 'the votes have the time of the parent', 'a block which is not later than its parent is accepted',
'''
	take.VotesOf(mc.Demo(), 2)
''')

tseed('C27-finalize-grandchild', [
    ('block/manager.go', '	if bn == nil || bn.parent != m.finalized {\n', '	if bn == nil || (bn.parent != m.finalized && bn.parent.parent != m.finalized) {\n'),
], 'a block on one which is not finalized is finalized first', 'a block is finalized at a height whose parent is not',
'''
	take.Tree(0, 2, 7)
	take.Tree(0, 1, 3, 8, 10)
''')

tseed('C27-other-branch', [
    ('block/manager.go', '		if c == except {\n			c.parent = nil\n		} else {\n			m._removeNode(c)\n		}\n', '		if c == except {\n			c.parent = nil\n		} else if len(c.children) == 0 {\n			m._removeNode(c)\n		}\n'),
], 'a block of a branch is finalized while another has two blocks', 'blocks of the branch which lost can still be built on',
'''
	take.Tree(0, 1, 3, 5, 3)
	take.Tree(0, 1, 3, 5, 8)
	take.Tree(0, 1, 2, 6, 2)
''')

tseed('C27-skip-third', [
    ('consensus/patch.go', '	f := vl.Len() / 3\n	if l > f {\n', '	f := vl.Len() / 3\n	if l >= f {\n'),
], 'a patch shows the votes of just a third', 'transactions are skipped without enough votes',
'''
	take.Patches(mc.Demo(), 3)
	take.Patches(mc.Demo(), 6)
''')

tseed('C27-bloom', [
    ('block/transition.go', '!mtr.LogsBloom().Equal(block.LogsBloom())', '!mtr.LogsBloom().Contain(block.LogsBloom())'),
], 'the bloom of a block lacks events', 'a block with a wrong bloom is accepted',
'''
	take.Fields(mc.Demo())
''')
