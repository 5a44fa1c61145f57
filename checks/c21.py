"""C21: the Merkle Patricia trie is an ordered map with a root that only depends on its content.

The real trie (common/trie/trie_manager on an in-memory database which logs every write, can fail any of them and can be
cut after any of them) is driven through every sequence of operations (set, delete, snapshot, flush, reload from the
database, reset to an earlier snapshot, dropping caches; from an empty, an unsaved, a stored and a cached trie) over four
families of keys chosen for the shape of the trie. After each sequence the root is compared with an independent
implementation of the trie (go/mc/mpt.go), and reads, iteration order and every snapshot taken on the way with a map. For
every content: every proof and every changed, shortened or foreign proof; every crash point and every failing write of a
flush; every order in which a synchronisation can receive the nodes.
"""
import sys

from mc import gorun

TECHNIQUE = ('model checking: all operation sequences up to a depth on the real trie against a reference trie; all crash points and failing '
             'writes of a flush; all arrival orders of a synchronisation; all one-byte corruptions of proofs')
BOUNDS = dict(
    quick='4 key families (5 keys, 2 values) x 4 kinds of start: all sequences of 4 of 20 operations; every content (243 per family): all proofs '
          'and their corruptions (2 bits of each byte), all crash points and failing writes of a flush from the empty and the full trie, '
          'up to 400 arrival orders of a synchronisation per content',
    thorough='all sequences of 5 operations')
LEVEL_NOTE = ('Exhaustive within the stated bounds on the real Go code; trusts the reference trie (go/mc/mpt.go), the in-memory '
              'database of the harness and the Go runtime.')
COST = 'about 20 s to build the Go packages, 20 s to run (quick)'
BUDGET = dict(quick=600, thorough=3000)


def main(a, t0):
    return gorun.main(sys.modules[__name__], a, t0)
