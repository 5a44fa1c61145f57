"""C22: issuance, rewards and planets of the HAVAH platform are those of a reference model, to the coin.

A real chain (service manager, contract manager, HAVAH platform, extension state; contracts run in a stand-in of the Java
engine which speaks its protocol) is started from a genesis with small terms and amounts. From there every sequence of
blocks up to a depth is executed, where a block holds the base transaction it needs and one of the operations of the
family (reports of work, claims, registration, removal and transfer of planets, prices, rates, managers, start of the
issuance, withdrawal of lost coins, burning, payments to the funds; pairs of them). After each block the receipts with
their events, and what every query of the platform answers, the balance of every account, the total supply and the
accounts of the sustainable fund are compared with an independent model (go/hv/econ.go), whose promises about the money
(the supply is the sum of the balances, the public treasury has exactly what it owes) are checked at each state too.
Equal states of the chain must be equal states of the model. Each branch is executed from what was stored.
"""
import sys

from mc import gorun

TECHNIQUE = ('explicit-state model checking: breadth-first search over all block sequences up to a depth on the real chain, each step compared with a '
             'reference model; states merged by the root of the world')
BOUNDS = dict(
    quick='32 families (alphabets of 2-80 operations, 1-7 planets, terms of 1-4 blocks, 1-50 terms, revisions 0-7), all block sequences of 3 to 19 blocks; '
          'every method x 7 kinds of caller x revisions 0-7 before, in and after the terms; grids of rates, ids and list lengths',
    thorough='one block more in each family; the access and argument families also go on after each kind of transaction')
LEVEL_NOTE = ('Exhaustive within the stated bounds on the real Go code. Trusts the model (go/hv/econ.go), the stand-in of the contract engine and the '
              'in-memory database. The step price is 0: fees come as payments to the treasury.')
COST = 'about 40 s to build the Go packages when nothing is cached, 70 s to run (quick)'
BUDGET = dict(quick=700, thorough=6000)


def main(a, t0):
    return gorun.main(sys.modules[__name__], a, t0)
