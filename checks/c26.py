"""C26: only valid transactions get in, and the chain goes on whatever is sent or proposed.

A real block manager with the real service (go/node, go/entry: no network and no consensus) is sent transactions by clients (JSON) and by nodes (bytes), and
given the blocks of other proposers with them. Eight families of transactions (transfers, messages, calls of contracts and of the system, deployments, deposits, patches) are changed
in every field to each of a list of values and in the type and data, or (thorough) any two fields, together; further: all sequences of transfers between three poor accounts; edges of balance, limit of steps,
size and price; unsigned (base, genesis, old) transactions in all forms at all places of a block; all pairs of lists of patches and normal transactions; and chains from their start over some terms in all
small configurations of rewards and validators. A small reference says which must be refused, and which must be taken (or succeed); all others may go either way, but what gets in
must be found in a block with a receipt, and in all cases the next block must be proposed, accepted by the other way and finalized.
"""
import sys

from mc import gorun

TECHNIQUE = ('stateless model checking: exhaustive enumeration of transactions, of blocks and of sequences of transfers up to a bound on the real service and block manager; '
             'the oracle is a reference of validity, and that the chain goes on')
BOUNDS = dict(
    quick='8 families x 3 routes x rewards on and off: each of about 110 values of 11 fields, all pairs of dataType and data; all sequences of 3 of 16 transfers between 3 accounts by both routes; '
          'base transactions: 18 data x 8 further fields sent, 17 layouts of blocks; lists of patches and others of up to 3 in all of 6 kinds; 108 configurations of rewards and about 100 of validators over some terms',
    thorough='all pairs of values of any two fields; sequences of 4 transfers; lists of up to 4')
LEVEL_NOTE = ('Exhaustive within the stated bounds on the real Go code, by two nodes where blocks are followed. Contracts are of the fake engine; the lists of values are chosen by hand at the edges of '
              'what the code distinguishes. Trusts the in-memory database and the deterministic signatures of the harness.')
COST = 'about 45 s to build the Go packages when nothing is cached, 35 s to run (quick)'
BUDGET = dict(quick=700, thorough=6000)


def main(a, t0):
    return gorun.main(sys.modules[__name__], a, t0)
