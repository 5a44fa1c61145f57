"""C24: transactions and the calls in them take effect as a whole or not at all, and are paid for exactly.

A real chain (transition, transaction handlers, call frames, world state, receipts; as in C22) runs enumerated programs: a stand-in of the
contract engine interprets small programs (store, delete, read, event, burn steps, fail, ask a balance, call with coins and a bound of steps,
catch the failure or not) in three contracts which call each other, accounts, the system and addresses which are neither. A reference
interpreter (go/tx/model.go) executes the same transactions on a plain map. Each block compares what the programs saw (the steps they were given,
read-only or not, values, balances, result and steps of each inner call), the receipts (status, steps, price, events in order, cumulative
steps), and the root of the world, which must be that of the last one with the changes of the reference and nothing else.
"""
import sys

from mc import gorun

TECHNIQUE = ('explicit-state model checking: exhaustive enumeration of programs of contracts and of blocks of transactions, each executed on the real '
             'chain and by a reference interpreter; the root of the world is compared after each block')
BOUNDS = dict(
    quick='all straight programs of 4 instructions of 6; every call of 6 methods and 30 odd targets with all bodies of 2 instructions, before and after each instruction, caught or '
          'not; families of calls two and three deep and of two calls; 7 bounds of steps of inner calls; 66 kinds of transactions with every limit of steps at 3 prices, '
          'with every balance around what they ask, give and use, and estimated; all blocks of 4 transactions of 14',
    thorough='bodies of 3 instructions, straight programs of 5, wider families three deep, blocks of 5 transactions')
LEVEL_NOTE = ('Exhaustive within the stated bounds on the real Go code. Trusts the reference interpreter (go/tx/model.go), the stand-in of the engine '
              '(which does what the engines do for the protocol) and the in-memory database. Deployments and fee sharing are left out.')
COST = 'about 40 s to build the Go packages when nothing is cached, 70 s to run (quick)'
BUDGET = dict(quick=700, thorough=6000)


def main(a, t0):
    return gorun.main(sys.modules[__name__], a, t0)
