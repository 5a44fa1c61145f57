"""C25: a transaction is executed at most once, in its window of time, and is found where it was.

A real block manager with the real service, transaction locators and database (go/node: no network and no consensus, blocks arrive as
bytes) takes over enumerated sequences of blocks: at each gap of time, with transactions at each edge of the window, on finalized and unfinalized
parents, with the writing of locators held back, with restarts, with changes of the width, pool sequences of 5 of the window by the governance, and with a crash
after each write of the end of a block. After each history all executed transactions, and new ones around the edges of the window, are offered again in
blocks at several times. The oracle keeps the set of executed transactions and the window.
"""
import sys

from mc import gorun

TECHNIQUE = ('stateless model checking: exhaustive enumeration of histories of blocks, restarts, late writes and crash points on the real block manager, '
             'each followed by attempts to repeat every executed transaction; the oracle is a set')
BOUNDS = dict(
    quick='all histories of 3 blocks at 4 gaps with up to 2 transactions at 4 times of the window and a restart; 2 blocks with 2 restarts which lose the locators being written; all pairs of '
          'unfinalized blocks; all lists of up to 4 of 7 transactions; all sequences of 5 of blocks, widths (3) and restarts from 2 widths; all crash points of the second of two blocks with up to 3 transactions; all sequences of 4 of transactions sent by clients (3), own blocks, blocks of others and restarts',
    thorough='histories of 4 blocks, lists of 5, sequences of 6 with changes of the width, pool sequences of 5')
LEVEL_NOTE = ('Exhaustive within the stated bounds on the real Go code. The locators held back are those of whole blocks; trusts the in-memory database and the deterministic signatures of the '
              'harness. One known finding: see known_findings.txt.')
COST = 'about 45 s to build the Go packages when nothing is cached, 70 s to run (quick)'
BUDGET = dict(quick=700, thorough=6000)


def main(a, t0):
    return gorun.main(sys.modules[__name__], a, t0)
