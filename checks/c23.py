"""C23: the validators of the HAVAH platform are those of a reference model after any history.

A real chain (as in C22) is started with one to three validators and small terms. From there every sequence of blocks up to
a depth is executed; the votes of a block (who missed the previous one) are part of its operations, as are registrations,
unregistrations, enablings, changes of keys and descriptions, of the number of validators, of the parameters of the
penalties and of the revision, the opening of a BTP network, and validators granted and revoked by hand. After each block
the receipts with their events, what every query of the platform answers (lists, each owner, the network), and the validator
set of the next block in its order are compared with an independent model (go/hv/val.go), whose promises (no node twice, nobody
disqualified in the set, each owner in exactly one list) are checked at each state too. Equal states of the chain must be
equal states of the model. Each branch is executed from what was stored.
"""
import sys

from mc import gorun

TECHNIQUE = ('explicit-state model checking: breadth-first search over all block sequences up to a depth on the real chain, each step compared with a '
             'reference model; states merged by the root of the world')
BOUNDS = dict(
    quick='44 families (alphabets of 2-11 operations, 1-3 validators at the start, up to 6 owners and 8 nodes, terms of 2-50 blocks, revisions 3-7), all block '
          'sequences of 4 to 11 blocks; all sets of missed votes of 2 and 3 validators; every method x 5 kinds of caller x revisions 3, 4 and 7',
    thorough='one block more in each family; the access and argument families also go on after each kind of transaction')
LEVEL_NOTE = ('Exhaustive within the stated bounds on the real Go code. Trusts the model (go/hv/val.go), the stand-in of the contract engine and the '
              'in-memory database. The votes of a block come from the test, not from a consensus.')
COST = 'about 40 s to build the Go packages when nothing is cached, 60 s to run (quick)'
BUDGET = dict(quick=700, thorough=6000)


def main(a, t0):
    return gorun.main(sys.modules[__name__], a, t0)
