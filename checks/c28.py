"""C28: two nodes never decide different blocks, and nodes which hear of each other go on deciding.

The real consensus engine of one validator of four (go/cons) gets all sequences of events up to a bound, from each of a list of starting points: proposals of the rounds, by the proposer and by others,
of blocks which are valid, not valid or not readable, with each round of a former majority; parts of blocks; votes of the others, one by one or together, of all rounds and for all blocks or none; the block manager finishing
what it was asked for; timers; and a crash before each single effect (a record written to a log, a log made durable, a message sent, a block finalized) after which records not made durable are kept or lost.
The oracle writes down all that leaves the node and judges it by the rules: never two votes or proposals of a round which differ; a vote for a block only if it was found valid and proposed by the
right one; a precommit only with two thirds of prevotes; after a precommit no prevote for another unless another got two thirds since; a block final only with two thirds of precommits. After each sequence
all others agree on a block, which the node has to finalize, and then run the next height, in which it has to vote. That these rules give agreement is checked on a model of up to 7 validators
with all votes in all rounds, a third of them doing anything (and that it breaks without locks, or with one more). Whole networks of 1 to 4 real engines run two heights under all schedules which deviate from the usual one:
a message late, a timer early, a node crashing (with and without what it did not sync), cut off, or with a slow block manager. Timers are those of the check: the sources of the engine are compiled with
time.AfterFunc and time.Now replaced.
"""
import sys

from mc import gorun

TECHNIQUE = ('stateless model checking of the real consensus engine: exhaustive enumeration of events and crash points up to a bound with states merged, judged by voting rules which an explicit-state model shows to be enough; '
             'bounded-deviation schedules of whole networks of engines')
BOUNDS = dict(
    quick='one engine of 4: 2 events from each of 13 starting points, 4 rounds, 2 to 3 blocks, 1 crash at any effect; 2 events with single votes; networks of 1 to 4 engines: 1 deviation (2 of 2 engines) at any step of 2 heights; '
          'rules: up to 7 validators, any number of rounds',
    thorough='3 events; networks of 3 and 4 engines with 2 deviations')
LEVEL_NOTE = ('Exhaustive within the stated bounds on the real Go code. The block manager, the network and the disk are those of the harness; what a log file keeps is C30. Fast synchronisation and the helper which sends missed messages are replaced by telling all messages again. '
              'Write errors of the log are not covered (the engine goes on without it). Trusts the deterministic signatures of the harness.')
COST = 'about 45 s to build the Go packages when nothing is cached, 100 s to run (quick)'
BUDGET = dict(quick=700, thorough=6000)
OVERLAY = True


def main(a, t0):
    return gorun.main(sys.modules[__name__], a, t0)
