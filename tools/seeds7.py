"""Planted bugs around blocks which are taken over, the locators and the pool of transactions (Go)."""
from seeds3 import gseed

L = 'common/txlocator/manager.go'
HEAD = '''
package main

import (
	"vgo/mc"
	. "vgo/node"
)

var _ = mc.Must
var _ = Hex

'''


def nseed(id, edits, needs, breaks, body):
    gseed(id, id.split('-')[0], edits, needs, breaks, HEAD + 'func main() {\n' + body.strip('\n') + '\n}\n')


HIST = '	h := NewHist(mc.Demo(), %d, %s)\n	defer h.Close()\n'

nseed('C25-time-in-database', [
    (L, "		if ptr.ts != 0 && c.maxTSInDB < ptrMax {\n", "		if ptr.ts != 0 && c.maxTSInDB < ptr.ts {\n"),
    (L, "			c.maxTSInDB = ptrMax\n", "			c.maxTSInDB = ptr.ts\n"),
], 'a transaction is later than its block, whose locators have left the cache, and the window has been widened', 'the transaction is executed again',
HIST % (4, 'true') + '''
	h.Add(1, T{5, 1})
	h.Add(9)
	h.SetTh(10, 8)
	h.Probe([]int64{1})
''')

nseed('C25-latest-list', [
    (L, "		if ptr.ts != 0 && c.maxTSInDB < ptrMax {\n", "		if ptr.ts != 0 {\n"),
], 'the window is narrowed, later blocks leave the cache after one with a transaction at the end of the old window, and it is widened again', 'the transaction is executed again',
HIST % (8, 'true') + '''
	h.Add(1, T{9, 1})
	h.SetTh(2, 2)
	h.Add(3)
	h.Add(12)
	h.SetTh(13, 8)
	h.Probe([]int64{1, 2})
''')

nseed('C25-orphan', [
    (L, "	if t.locators == nil && t.parent == nil {\n		return t.manager.NewTracker", "	if t.locators == nil || t.parent == nil {\n		return t.manager.NewTracker"),
], 'a block repeats a transaction of its parent, which is not finalized yet', 'the block is accepted',
HIST % (2, 'false') + '''
	a := h.Ask(h.N.Last(), 1, nil, T{2, 1})
	h.Ask(a, 2, []T{{2, 1}}, T{2, 1})
''')

nseed('C25-cached-when-stored', [
    (L, "	for k, l := range t.locators {\n		if loc, ok := m.locators[k] ; ok {\n			loc.id = \"\"\n		}\n		m.locators[k] = l\n	}\n	if t.list", "	if t.list"),
    (L, "	c := &m.cache[list.group]\n	listMin", "	for l := list.head; l != nil; l = l.next {\n		m.locators[l.id] = l\n	}\n	c := &m.cache[list.group]\n	listMin"),
], 'a block repeats a transaction while the locators of its block are still being written', 'the block is accepted',
HIST % (2, 'false') + '''
	h.Gate.Shut(true)
	h.Add(1, T{2, 1}, T{1, 2})
	h.Ask(h.N.Last(), 2, nil, T{2, 1})
''')

nseed('C25-no-locators-at-start', [
    ('block/manager.go', "	err = m.sm.Finalize(bn.preexe.mtransition(), module.FinalizeNormalTransaction)\n	if err != nil {\n		return nil, err\n	}\n	m.finalized = bn\n",
     "	if len(lastFinalized.NormalTransactions().Hash()) == 0 {\n		err = m.sm.Finalize(bn.preexe.mtransition(), module.FinalizeNormalTransaction)\n	}\n	if err != nil {\n		return nil, err\n	}\n	m.finalized = bn\n"),
], 'the node stops after a block is stored and before its locators are', 'the transactions of the block are not found after the start',
HIST % (2, 'false') + '''
	h.Gate.Shut(true)
	h.Add(1, T{2, 1})
	h.Restart(h.DB.Copy())
	h.Find()
''')

nseed('C25-bound-of-window', [
    ('service/tschecker.go', "	if ts <= min {\n", "	if ts < min {\n"),
], 'a transaction is exactly as old as the window is wide', 'it is executed, though it has expired',
HIST % (2, 'false') + '''
	h.Ask(h.N.Last(), 3, nil, T{1, 1})
''')

nseed('C25-same-list', [
    (L, "			if _, ok := locators[string(id)]; ok {\n				return cnt, errors", "			if loc, ok := locators[string(id)]; ok && loc.offset+1 == idx {\n				return cnt, errors"),
], 'a block has a transaction twice with another one in between', 'it is executed twice',
HIST % (2, 'false') + '''
	h.Ask(h.N.Last(), 1, nil, T{1, 1}, T{2, 2}, T{1, 1})
''')

nseed('C25-late-receipt', [
    ('block/manager.go', "		if m.finalized.block.Height() < loc.BlockHeight+1 {\n			rblock = nil\n", "		if m.finalized.block.Height() <= loc.BlockHeight+1 && loc.IndexInGroup > 0 {\n			rblock = nil\n		} else if m.finalized.block.Height() < loc.BlockHeight+1 {\n			rblock = nil\n"),
], 'the receipt of the second transaction of a block is asked for while its result is in the last block', 'there is none',
HIST % (2, 'false') + '''
	h.Add(1, T{1, 1}, T{2, 2})
	h.Find()
	h.Add(2)
	h.Find()
''')

nseed('C25-index', [
    (L, "			loc := allocLocator(t.list, string(id), idx)\n", "			pos := idx\n			if t.list.height%4 == 0 {\n				pos = cnt / 2\n			}\n			loc := allocLocator(t.list, string(id), pos)\n"),
], 'a block whose height is a multiple of four', 'its transactions are not found at their places',
HIST % (2, 'false') + '''
	h.Add(1, T{1, 1}, T{2, 2})
	h.Add(2, T{3, 3}, T{2, 4})
	h.Find()
''')

nseed('C25-pool-repeats', [
    ('service/transactionpool.go', "		if has, err := tp.tim.HasRecent(tx.Group(), tx.ID(), tx.Timestamp()); err != nil {\n			continue\n		} else if has {\n			e.err",
     "		if has, err := tp.tim.HasRecent(tx.Group(), tx.ID(), tx.Timestamp()); err != nil {\n			continue\n		} else if has && e.ts == 0 {\n			e.err"),
    ('service/txidmanager.go', "	if has, err := mg.lm.Has(txg, id, ts) ; err != nil {\n		return err\n	} else if has {\n", "	if has, err := mg.lm.Has(txg, id, ts) ; err != nil {\n		return err\n	} else if has && ts <= mg.commitTS[txg] {\n"),
], 'a client sends a transaction again which is executed but not older than the last block', 'the node proposes it again, and its block is refused',
HIST % (2, 'false') + '''
	h.Add(1, T{3, 1})
	_, err := h.N.SM.SendTransaction(nil, 0, h.Of(T{3, 1}))
	if err == nil {
		mc.Bad("an executed transaction is taken")
	}
''')
