"""C30: the logs of the consensus give back after a crash all that was made durable, in order, and can be used on.

The real log files (go/logs), in a scratch folder, get all sequences of operations up to a bound: records of several sizes, sync, the next file, cleaning up, with several limits of a file and of all. Then the node goes down: the last file has all, or is
cut at any byte which was not durable, or has zeros from there, or a wrong byte; or the last file is not there yet. The log is then read as the engine does when it starts: what comes back are the records written, in order, from the first which is
kept, with all those which were durable; it is repaired if it must be, with a crash before each change of the files which the repair makes, and read again; then two more records are written and made durable, with a crash at each byte of the second, and the next start must find all of them.
Any wrong byte in any file costs nothing before it. Cleaning up keeps what the limit says, but for one file.
"""
import sys

from mc import gorun

TECHNIQUE = ('exhaustive enumeration of crash points on the real code: all sequences of operations up to a bound, every byte at which the disk may end, every change of files in the repair, and every byte of the record after it; states merged by what is on the disk')
BOUNDS = dict(
    quick='6 operations of 5 kinds, 3 settings of limits; 4 operations with records larger than the buffer (ends at each 97th byte and around headers); wrong bytes: 5 operations, all bytes, 3 values',
    thorough='7, 5 and 6 operations')
LEVEL_NOTE = ('Exhaustive within the stated bounds on the real Go code. A file is durable up to where it was synced, and what follows is cut, zeros or one wrong byte; files are created and removed in order. Not covered: writes which fail, '
              'timers of the periodic sync, and what the engine makes of the records (C28).')
COST = 'about 45 s to build the Go packages when nothing is cached, 70 s to run (quick)'
BUDGET = dict(quick=700, thorough=6000)
OVERLAY = True


def main(a, t0):
    return gorun.main(sys.modules[__name__], a, t0)
