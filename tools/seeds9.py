"""Planted bugs in the consensus (Go)."""
from seeds3 import gseed

CS = 'consensus/consensus.go'
VS = 'consensus/voteset.go'
HEAD = '''
package main

import . "vgo/cons"

var _ = P

'''


def cseed(id, edits, needs, breaks, body):
    gseed(id, id.split('-')[0], edits, needs, breaks, HEAD + 'func main() {\n' + body.strip('\n') + '\n}\n')


cseed('C28-lock-not-synced', [
    (CS, '''			}
		}
		if err := cs.lockWAL.Sync(); err != nil {
			cs.log.Errorf("fail to sync WAL: enterPrecommit: %+v\\n", err)
		}
		cs.sendVote(VoteTypePrecommit, &cs.lockedBlockParts)
	} else if cs.cur''', '''			}
		}
		cs.sendVote(VoteTypePrecommit, &cs.lockedBlockParts)
		if err := cs.lockWAL.Sync(); err != nil {
			cs.log.Errorf("fail to sync WAL: enterPrecommit: %+v\\n", err)
		}
	} else if cs.cur'''),
], 'a crash loses what is not synced after the precommit was sent and before the lock is synced', 'the node forgets its lock and votes for another block',
'''
	for n := 1; n < 12; n++ {
		e := PV(0, "A")
		e.Crash, e.Lost = n, true
		Try(0, P(0, "A"), I, e, PC(0, "-,-,-"), P(1, "B"), PV(1, "B,B,-"), T, I)
		Try(0, P(0, "A"), I, e, PC(0, "-,-,-"), PV(1, "-,-,B"), T)
	}
''')

cseed('C28-vote-after-send', [
    (CS, '''	if err := cs.roundWAL.Sync(); err != nil {
		cs.log.Errorf("fail to sync WAL: sendVote: %+v\\n", err)
	}
	cs.log.Debugf("sendVote %v\\n", msg)
''', '''	if vt == VoteTypePrecommit {
		if err := cs.roundWAL.Sync(); err != nil {
			cs.log.Errorf("fail to sync WAL: sendVote: %+v\\n", err)
		}
	}
	cs.log.Debugf("sendVote %v\\n", msg)
'''),
], 'a crash loses what is not synced just after a prevote was sent', 'the node prevotes twice in a round',
'''
	for n := 1; n < 6; n++ {
		e := Ev{K: 'I', Crash: n, Lost: true}
		Try(0, P(0, "A"), e, T)
		Try(0, P(0, "A"), e, T, P(0, "A2"), I)
	}
''')

cseed('C28-proposal-after-crash', [
    (CS, '''			if round < m.round() || (round == m.round() && rstep <= stepPropose) {
				round = m.round()
				rstep = stepPropose
			}
''', '''			if round < m.round() {
				round = m.round()
				rstep = stepPropose
			}
'''),
], 'the proposer of the first round of a height crashes after it sent its proposal and before it votes', 'it proposes another block in the same round',
'''
	for n := 1; n < 8; n++ {
		Try(1, Ev{K: 'I', Crash: n}, I)
	}
''')

cseed('C28-unlock-same-round', [
    (CS, 'if cs.lockedRound < msg.Round && !cs.lockedBlockParts.IsZero() &&', 'if cs.lockedRound <= msg.Round+1 && !cs.lockedBlockParts.IsZero() &&'),
], 'two thirds of the prevotes of the round before the lock become known after it', 'a node gives its lock up for an older majority',
'''
	Try(0, PV(0, "-,-,A"), PC(0, "-,-,-"), P(1, "B"), I, PV(1, "B"), PC(1, "-,-,-"), PV(0, "-,-,-"), T)
	Try(0, PV(0, "-,-,A"), PC(0, "-,-,-"), P(1, "B"), I, PV(1, "B"), PV(0, "-,-,-"), PC(1, "-,-,-"), T, PV(2, "-,-,-"))
''')

cseed('C28-late-import-votes', [
    (CS, '''					late := cs.hrs.height != hrs.height ||
						cs.hrs.round != hrs.round ||
						cs.hrs''', '''					late := cs.hrs.height != hrs.height ||
						cs.hrs'''),
], 'a block is found valid in the round after the one in which it was proposed', 'the node votes for it in a round in which nobody proposed it',
'''
	F := Ev{K: 'F'}
	Try(0, P(0, "A"), F, PC(0, "-,-,-"), I, I)
	Try(0, P(0, "A"), F, PV(0, "-,-,-"), PC(0, "-,-,-"), P(1, "B"), I, I)
	Try(0, P(0, "A"), F, PV(0, "-,-,-"), PC(0, "-,-,-"), I, P(1, "A"), I)
	Try(0, P(0, "A"), PV(0, "-"), PC(0, "-"), I, T, I)
	Try(0, P(0, "A"), PV(0, "-,-,-"), PC(0, "-,-,-"), P(1, "B"), I, I)
''')

cseed('C28-vote-repeated', [
    (VS, '''		for i, c := range vs.counters {
			if bytes.Equal(c.roundDecisionDigest, omsg.RoundDecisionDigest()) {
				vs''', '''		for i, c := range vs.counters {
			if bytes.Equal(c.roundDecisionDigest, omsg.RoundDecisionDigest()) &&
				!bytes.Equal(c.roundDecisionDigest, v.RoundDecisionDigest()) {
				vs'''),
], 'a validator sends its vote again with another time', 'its vote counts twice',
'''
	v := func(f func(int32, string) Ev, by int, x string) Ev { e := f(0, x); e.By = by; return e }
	Try(0, P(0, "A"), I, v(PV, 1, "A"), v(PV, 1, "A'"), v(PV, 2, "-"))
	Try(0, P(0, "A"), I, PV(0, "A"), v(PC, 1, "A"), v(PC, 1, "A'"), v(PC, 2, "-"))
''')

cseed('C28-commit-any', [
    (CS, '''		partSetID, ok := precommits.getOverTwoThirdsPartSetID()
		if partSetID != nil {
			cs.enterCommit(precommits, partSetID, msg.Round)
		} else''', '''		partSetID, ok := msg.BlockPartSetIDAndNTSVoteCount.ID(), precommits.hasOverTwoThirds()
		if partSetID != nil {
			cs.enterCommit(precommits, partSetID, msg.Round)
		} else'''),
], 'the validators precommit different things, and the last one comes after two thirds voted', 'a block is final without two thirds of the precommits',
'''
	v := func(by int, x string) Ev { e := PC(0, x); e.By = by; return e }
	Try(0, P(0, "A"), I, PV(0, "A"), v(1, "-"), v(2, "-"), v(3, "A"), I)
	Try(0, P(0, "A"), I, v(1, "-"), v(2, "-"), v(3, "A"), v(1, "A"), I)
	Try(0, P(0, "A"), I, PV(0, "-,-,A"), PC(0, "-,A,"), PC(0, ",,A"), I)
''')

cseed('C28-lock-height', [
    (CS, '''	if !cs.lockedBlockParts.IsZero() {
		cs.sendVote(VoteTypePrevote, &cs.lockedBlockParts)
	} else if cs.currentBlockParts.HasBlockData() {''', '''	if !cs.lockedBlockParts.IsZero() && !cs.currentBlockParts.HasValidatedBlock() {
		cs.sendVote(VoteTypePrevote, &cs.lockedBlockParts)
	} else if cs.currentBlockParts.HasBlockData() {'''),
    (CS, '''		if !cs.lockedBlockParts.IsZero() {
			cs.sendProposal(cs.lockedBlockParts.PartSet, cs.lockedRound)
			cs.currentBlockParts.Assign(&cs.lockedBlockParts)
		} else {''', '''		if !cs.lockedBlockParts.IsZero() && cs.lockedRound+2 > cs.round {
			cs.sendProposal(cs.lockedBlockParts.PartSet, cs.lockedRound)
			cs.currentBlockParts.Assign(&cs.lockedBlockParts)
		} else {'''),
], 'a node which is locked since two rounds is the proposer', 'it proposes and prevotes another block than the one it precommitted',
'''
	Try(3, P(0, "A"), I, PV(0, "A"), PC(0, "-,-,-"), PV(1, "-,-,A"), PC(1, "-,-,-"), I, I, T, I)
	Try(3, P(0, "A"), I, PV(0, "A"), PC(1, "-"), T, I, I, T, I)
''')

cseed('C28-late-commit', [
    (CS, '''	if msg.Round < cs.round && cs.step < stepCommit {
		if psid,''', '''	if msg.Round+1 == cs.round && cs.step < stepCommit {
		if psid,'''),
], 'precommits of a round get two thirds when the node is two rounds later', 'the node never decides',
'''
	Goes(0, 0, P(0, "A"), I, PV(0, "A"), PV(2, "-"))
	Goes(0, 0, PV(2, "-"))
''')
