"""Planted bugs in what the consensus does with messages, parts and peers (Go)."""
from seeds9 import cseed

MS = 'consensus/message.go'
PS = 'consensus/partset.go'
SY = 'consensus/syncer.go'
CS = 'consensus/consensus.go'

cseed('C29-mask-of-precommits', [
    (MS, 'if err := msg.PrecommitsMask.Verify(); err != nil {', 'if err := msg.PrevotesMask.Verify(); err != nil {'),
], 'a report of a peer whose set of precommits has more bits than words, while the node has precommits', 'any peer stops a node',
'''
	Told(I1(PC(0, "A")), func(m *State) { m.PrecommitsMask = &Bits1{NumBits: 65, Words: nil} })
	Told(I1(PV(0, "A"), PC(0, "-,-,")), func(m *State) { m.PrecommitsMask = &Bits1{NumBits: 200, Words: []uint64{}} })
''')

cseed('C29-votes-by-other-mask', [
    ('consensus/voteset.go', 'if !precommitsMask.Get(i) && msg != nil {', 'if !prevotesMask.Get(i) && msg != nil {'),
], 'a peer which has the prevote of a validator but not its precommit', 'missed precommits are never told',
'''
	w := World4()
	a, b := w.NewLocal(3), w.NewLocal(0)
	for i := 1; i < 3; i++ {
		for _, l := range []*Local{a, b} {
			l.Do(Ev{K: 'V', T: Prevote, X: "A", By: i})
		}
		a.Do(Ev{K: 'V', T: Precommit, X: "A", By: i})
	}
	Relay(a, b, func() bool { return Has(b, Precommit, 0, 1) && Has(b, Precommit, 0, 2) })
	if !Has(b, Precommit, 0, 1) || !Has(b, Precommit, 0, 2) {
		Fail("the precommits are not told")
	}
''')

cseed('C29-prototype-bound', [
    ('consensus/votelist.go', 'if pi < 0 || pi >= len(vl.Prototypes) {', 'if pi < 0 || pi > len(vl.Prototypes) {'),
], 'a list of votes with an item which names the kind of vote after the last', 'any peer stops a node',
'''
	w := World4()
	l := w.NewLocal(3)
	var vl List
	vl.AddVote(VoteOf(w.Vote(1, Prevote, 1, 0, l.Block("A"), 0)))
	for i := int16(-2); i < 4; i++ {
		vl.VoteItems[0].PrototypeIndex = i
		TellVotes(l, &vl)
	}
''')

cseed('C29-votes-first-only', [
    ('consensus/votelist.go', '''	for i := 0; i < vl.Len(); i++ {
		v := vl.Get(i)
		if err := v.Verify(ctx); err != nil {''', '''	for i := 0; i < vl.Len() && i < len(vl.Prototypes); i++ {
		v := vl.Get(i)
		if err := v.Verify(ctx); err != nil {'''),
], 'a list of two votes of the same kind of which the second has a signature which gives no key', 'any peer stops a node',
'''
	w := World4()
	l := w.NewLocal(3)
	var vl List
	vl.AddVote(VoteOf(w.Vote(1, Prevote, 1, 0, l.Block("A"), 0)))
	vl.AddVote(VoteOf(w.Vote(2, Prevote, 1, 0, l.Block("A"), 0)))
	vl.VoteItems[1].Signature = Junk()
	TellVotes(l, &vl)
''')

cseed('C29-proposal-of-nothing', [
    (MS, 'if msg.BlockPartSetID == nil || msg.BlockPartSetID.Count <= 0 || msg.POLRound < -1', 'if (msg.BlockPartSetID != nil && msg.BlockPartSetID.Count <= 0) || msg.POLRound < -1'),
], 'a signed proposal without a block', 'a proposer stops all nodes',
'''
	l := World4().NewLocal(3)
	Propose(l, 1, func(m *Prop) { m.BlockPartSetID = nil })
''')

cseed('C29-mask-before-proof', [
    (PS, '''	key, _ := codec.MarshalToBytes(uint16(pt.idx))
	data, err := ps.tree.Prove(key, pt.proof)
	if err != nil {
		return err
	}
	pt.data = data
	ps.parts[idx] = pt
	ps.added += 1
	ps.ba.Set(idx)
	return nil''', '''	ps.ba.Set(idx)
	key, _ := codec.MarshalToBytes(uint16(pt.idx))
	data, err := ps.tree.Prove(key, pt.proof)
	if err != nil {
		return err
	}
	pt.data = data
	ps.parts[idx] = pt
	ps.added += 1
	return nil'''),
], 'a part with a wrong proof for a block which is decided, then only helpers which have the part', 'a node is never sent the part again',
'''
	ps := Cut(100, 40)
	o := Empty(ps)
	for i := 0; i < 2; i++ {
		p := PartOf(ps, i, 1-i)
		if o.AddPart(p) == nil {
			Fail("part %d is taken for part %d", 1-i, i)
		}
	}
	for i := 0; i < 3; i++ {
		if o.GetMask().Get(i) {
			Fail("a part is said to be there which is not")
		}
	}
''')

cseed('C29-part-index-byte', [
    (PS, '''	key, _ := codec.MarshalToBytes(uint16(pt.idx))
	data, err''', '''	key, _ := codec.MarshalToBytes(uint8(pt.idx))
	data, err'''),
], 'a block of more than 256 parts', 'it can not be put together',
'''
	ps := Cut(300*40, 40)
	o := Empty(ps)
	for i := 0; i < 300; i++ {
		if err := o.AddPart(PartOf(ps, i, i)); err != nil {
			Fail("part %d is not taken: %v", i, err)
		}
	}
''')

cseed('C29-no-help-at-commit', [
    (SY, '(p.Height == e.Height() && e.Step() >= stepCommit) {', '(p.Height == e.Height() && e.Step() > stepCommit) {'),
], 'a block is decided but no node has all its parts', 'the parts are never told and the network stops',
'''
	a, b := Halved(2, 1, 2)
	Relay(a, b, func() bool { return a.Height() == 2 && b.Height() == 2 })
	if a.Height() != 2 || b.Height() != 2 {
		Fail("the parts are not told")
	}
''')

cseed('C29-votes-of-the-round', [
    (SY, 'vl := e.GetVotes(e.Round()-1, p.PrevotesMask, p.PrecommitsMask)', 'vl := e.GetVotes(e.Round(), p.PrevotesMask, p.PrecommitsMask)'),
], 'a node is a round behind, and the others have just begun the next', 'it never gets to the round of the others',
'''
	w := World4()
	a, b := w.NewLocal(3), w.NewLocal(0)
	a.Do(PC(0, "-,-,-"))
	ok := func() bool { return b.Status().Round >= 1 }
	Relay(a, b, ok)
	if !ok() {
		Fail("the votes which end the round are not told")
	}
''')

cseed('C29-votes-not-of-parent', [
    (CS, '''				vl, err = cvl.toVoteListWithBlock(b, prev, cs.c.Database())
				if err != nil {
					return nil, err
				}
			}''', '''				vl, err = cvl.toVoteListWithBlock(prev, b, cs.c.Database())
				if err != nil {
					return nil, err
				}
			}'''),
], 'a node which was started again after it decided helps one which did not', 'it tells votes nobody can use',
'''
	BehindDemo(1, 1, true)
	BehindDemo(1, 2, true)
''')


WL = 'consensus/wal.go'
LHEAD = '''
package main

import . "vgo/logs"

'''


def lseed(id, edits, needs, breaks, body):
    from seeds3 import gseed
    gseed(id, id.split('-')[0], edits, needs, breaks, LHEAD + 'func main() {\n' + body.strip('\n') + '\n}\n')


lseed('C30-corrupt-not-repaired', [
    (WL, '	left := w.validOffset\n', '	left := w.validOffset + headerLen\n'),
], 'a crash which leaves more than a header of the last record', 'what is written after the restart is lost at the next',
'''
	for n := 0; n < 20; n++ {
		Again([]int{20, 20}, 28+n)
	}
''')

lseed('C30-crc-of-prefix', [
    (WL, '	actualCRC := crc32.Checksum(payload, crc32c)', '	actualCRC := crc32.Checksum(payload[:len(payload)/512*511+len(payload)%512], crc32c)'),
    (WL, '	crc := crc32.Checksum(payload, crc32c)\n	payloadLen', '	crc := crc32.Checksum(payload[:len(payload)/512*511+len(payload)%512], crc32c)\n	payloadLen'),
], 'a record of at least 512 bytes whose last bytes were not written', 'a part of a block or a list of votes comes back altered',
'''
	Zeros([]int{5000}, 4993)
	Zeros([]int{10, 600}, 599)
''')

lseed('C30-shift-without-sync', [
    (WL, '''	err := w.sync()
	if err != nil {
		return err
	}
	err = w.tail.File.Close()
	if err != nil {
		return errors.WithStack(err)
	}
	w.tail.File, err = os.OpenFile(''', '''	err := w.tail.File.Close()
	if err != nil {
		return errors.WithStack(err)
	}
	w.tail.File, err = os.OpenFile('''),
], 'a large record which was half written to the file when the log goes on to the next', 'the record is split over two files, one of which may be cut',
'''
	Shifted([]int{10, 5000, 10})
''')

lseed('C30-clean-up-one-too-many', [
    (WL, '	for wi.totalSize > w.cfg.TotalLimit {', '	for wi.totalSize+w.cfg.FileLimit > w.cfg.TotalLimit && wi.headIdx < w.tailIdx {'),
], 'a log near its limit', 'records are removed which the limit lets stay',
'''
	Kept(Conf{File: 30, Total: 100}, 10, 4)
''')

lseed('C30-file-number-byte', [
    (WL, '		idx, err := strconv.ParseUint(idxStr, 10, 64)', '		idx, err := strconv.ParseUint(idxStr, 10, 8)'),
], '257 files or more', 'the log is read and written as if the newer files were not there',
'''
	Files(260)
''')

lseed('C30-eof-anywhere', [
    (WL, '''	_, err := io.ReadAtLeast(w.reader, header, headerLen)
	if err != nil {''', '''	n, err := io.ReadAtLeast(w.reader, header, headerLen)
	if err != nil && n < headerLen/2 {
		return nil, errors.WithStack(io.EOF)
	}
	if err != nil {'''),
], 'a crash within the first four bytes of a record', 'the end is not repaired, and what is written after it is lost',
'''
	for n := 0; n < 28; n++ {
		Again([]int{20, 20}, 28+n)
	}
''')

lseed('C30-valid-offset-without-header', [
    (WL, '	w.validOffset += int64(headerLen + payloadLen)', '	w.validOffset += int64(headerLen) + int64(uint16(payloadLen))'),
], 'a damaged log with a record of more than 64 KB before the damage', 'the repair cuts durable records',
'''
	Again([]int{70000, 20}, 70008+11)
''')
