"""C29: a block is put together from its own parts only; whatever peers send, a node survives, is not misled, and helps those behind.

All on the real Go code. Blocks of all sizes up to a bound are cut into parts, which another node gets in all orders, twice, or not at all: it has the block when it has all of them, and then the same bytes;
parts of other blocks, other places, or with proofs which are cut, longer or altered in any bit (of the part and of the proof of the trie it carries) are refused, and what a proof of any shape says is never believed
when it does not lead to the root. A node in each of seven situations, where the message decides what it does next, gets the message with any bit turned, any byte lost or doubled, cut anywhere, and under any
other protocol; and the same message with odd values in each field, signed by each validator, by the node itself and by a stranger: it must not count for what it is not, and afterwards the network has to decide. Reports of other
nodes about what they have (all fields with odd values, in five situations) must not stop the node. A node which is one or two blocks behind, of 1 to 128 parts, with all subsets of parts and votes it may know already, gets all it needs from one
which has them, also after that was started again; and votes which one has and another has not are told. The sets of parts and votes are checked against plain sets for all sizes up to 200.
"""
import sys

from mc import gorun

TECHNIQUE = ('explicit enumeration on the real consensus code: all part orders and all single alterations of parts, proofs and messages up to a bound, all odd field values under each signer, all subsets of what a node behind knows; '
             'each run judged by the voting rules of C28 and by whether the network decides afterwards')
BOUNDS = dict(
    quick='blocks of 1 to 110 bytes in parts of 2 to 33 bytes, and of 1 to 3 real parts; 1 altered bit or byte in a part, a proof or a message; 1 odd field; helper: 1 or 2 blocks behind, 1 to 128 parts; bit sets of 0 to 200',
    thorough='the same')
LEVEL_NOTE = ('Exhaustive within the stated bounds on the real Go code. The helper picks parts at random: which it sends first is not enumerated, what arrives in the end is. Fast synchronisation (more than four blocks behind) is not covered. '
              'Trusts the deterministic signatures of the harness and Keccak.')
COST = 'about 45 s to build the Go packages when nothing is cached, 40 s to run'
BUDGET = dict(quick=700, thorough=6000)
OVERLAY = True


def main(a, t0):
    return gorun.main(sys.modules[__name__], a, t0)
