"""C27: a block is taken over exactly if it is the right next one, with the votes of more than two thirds.

A real block manager with the real service (go/take: no network and no consensus) is given blocks: one which is right, with each field of its header and body replaced by each of a list of
values, each bit of its bytes flipped and each byte cut or set; all sets of votes of 1 to 7 validators with each kind of wrong vote at each place, all orders and all combinations of times of votes and block;
blocks with the votes of the former, present and later validators over chains whose validators change; all sequences of taking and finalizing the blocks of a tree with two branches and restarts;
and, for the patches which skip the transactions of a block, all sets of votes for no block with each kind of wrong vote. The oracle is the definition: the fields as the real proposer makes them, counting,
the median, and a model of the tree.
"""
import sys

from mc import gorun

TECHNIQUE = ('stateless model checking: exhaustive enumeration of altered blocks, sets of votes, and sequences of taking, finalizing and restarting up to a bound on the real block manager; '
             'the oracle counts votes and keeps the tree')
BOUNDS = dict(
    quick='one block with 2 transactions: each of 11 fields of the header and 15 forms of the body, all bits and 10 values of all bytes; 1 to 7 validators: all subsets in 3 rounds, 11 kinds of wrong votes at all places of the smallest and '
          'the full list, all bytes of all signatures; up to 4 validators: all orders, all combinations of 5 times; 16 changes of the number of validators; sequences of 6 of 11 operations on a tree of 5 blocks (operations which change nothing last); '
          'patches: all subsets in 3 limits, 10 kinds of wrong votes at all places',
    thorough='sequences of 8 operations')
LEVEL_NOTE = ('Exhaustive within the stated bounds on the real Go code. The proposer in the header is free (the consensus engine looks at it). Votes with proofs of BTP networks are not covered. '
              'Trusts the in-memory database and the deterministic signatures of the harness.')
COST = 'about 45 s to build the Go packages when nothing is cached, 20 s to run (quick)'
BUDGET = dict(quick=700, thorough=6000)


def main(a, t0):
    return gorun.main(sys.modules[__name__], a, t0)
