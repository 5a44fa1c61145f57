"""C20: the fee-sharing proportion is validated and reported for its own call only.

All short programs that set and read the proportion, alone and in call trees of two contracts, in every call mode and
ending, run on the real engine one after another; SETFEEPCT messages and values read are compared with a model in which
the proportion belongs to one call.
"""
import itertools

from mc import wire as W
from mc.common import Host, A1, A2, ST, to_py, code_of
from mc.node import run_engine

TECHNIQUE = 'model checking: exhaustive enumeration of programs setting the proportion in a call tree on the real engine against a per-call model'
BOUNDS = dict(
    quick='all sequences of <=3 over 9 settings, reads and nested calls with every callee program of <=2 over 5 settings (success and failure), 6 call modes and 3 endings for length <=2; trees of depth 3; every value in -2..102 and 12 outsiders; ill-typed values',
    thorough='length 4, callee programs of <=3')

VALUES = [-1, 0, 1, 50, 99, 100, 101, 2 ** 64, True]
CH = [0, 7, 100, 101, -1]
ENDS = ('ok', 'revert', 'raise')
MODES = (('run', False), ('pay', False), ('on_install', False), ('on_update', False), ('view', True), ('run', True))
ILL = [50.5, float('nan'), '50', None, b'5', [5], 1j, 1e3, -0.5]


def child_progs(n):
    for k in range(n + 1):
        for p in itertools.product([('set', v) for v in CH], repeat=k):
            for e in ('ok', 'revert'):
                yield ('nest', 'run', p, e)
    for v in CH:
        yield ('nest', 'view', (('set', v),), 'ok')


def ops(tier):
    return [('set', v) for v in VALUES] + [('get',)] + list(child_progs(2 if tier == 'quick' else 3))


SIMPLE = [('set', v) for v in VALUES] + [('get',), ('nest', 'run', (), 'ok'), ('nest', 'run', (('set', 7),), 'ok'), ('nest', 'run', (('set', 7),), 'revert'), ('nest', 'run', (('set', 7), ('set', 0)), 'ok'),
          ('nest', 'run', (('set', 7), ('set', 101)), 'ok'), ('nest', 'view', (('set', 7),), 'ok'), ('nest', 'run', (('nest', 'run', (('set', 9),), 'ok'),), 'ok'),
          ('nest', 'run', (('set', 8), ('nest', 'run', (('set', 9),), 'ok')), 'ok'), ('nest', 'run', (('nest', 'run', (('set', 9),), 'ok'), ('set', 8)), 'ok')]


def units(tier):
    n = len(ops(tier))
    return [('pair', i) for i in range(n)] + [('three', i) for i in range(len(SIMPLE))] + [('modes', i) for i in range(len(MODES))] + [('values',), ('ill',)] + (
        [('four', i, j) for i in range(len(SIMPLE)) for j in range(len(SIMPLE))] if tier == 'thorough' else [])


def model(prog, end, ro):
    """-> (last, ever set, log)"""
    last, ever, log = 0, False, []
    for op in prog:
        if op[0] == 'get':
            log.append(last)
        elif op[0] == 'set':
            if ro or not 0 <= op[1] <= 100:
                log.append(('err', ST['FORMAT']))
            else:
                last, ever = op[1], True
                log.append('set')
        else:
            l2, e2, log2 = model(op[2], op[3], ro or op[1] == 'view')
            log.append(('nest', op[3] == 'ok', log2, (l2, e2)))
    return int(last), ever, log


def unit(u, ctx):
    host = Host(ctx)

    def program(prog, end, log):
        def p(s):
            from iconservice import revert
            for op in prog:
                if op[0] == 'get':
                    log.append(s.get_fee_sharing_proportion())
                elif op[0] == 'set':
                    try:
                        s.set_fee_sharing_proportion(op[1])
                        log.append('set')
                    except BaseException as e:   # noqa
                        log.append(('err', code_of(e)))
                else:
                    sub = []
                    host.prog(1, program(op[2], op[3], sub))
                    try:
                        s.call(to_py(A2 if s.address == to_py(A1) else A1), op[1], {'i': 1})
                        ok = True
                    except BaseException as e:   # noqa
                        ok = False
                    log.append(('nest', ok, sub))
            if end == 'revert':
                revert('x', 1)
            if end == 'raise':
                raise KeyError('x')
            return 1
        return p

    def check_frame(fr, prog, end, ro, what, log):
        last, ever, want = model(prog, end, ro)
        kids = [c for c in want if isinstance(c, tuple) and c[0] == 'nest']
        plain = [c[:3] if isinstance(c, tuple) and c[0] == 'nest' else c for c in want]
        flat = strip(plain)
        if strip(log) != flat:
            ctx.fail('%s: contract sees %r, expected %r' % (what, strip(log), flat))
        ok = ([last],) if last else ([], [0]) if ever else ([],)
        if end != 'ok':
            ok += ([],)
        if fr.fee not in ok:
            ctx.fail('%s: reported %r, expected %r' % (what, fr.fee, ok[0]))
        if fr.sent_while_ro:
            ctx.fail('%s: reported in read-only mode' % what)
        calls = [op for op in prog if op[0] == 'nest']
        if len(fr.calls) != len(calls):
            ctx.fail('%s: %d nested calls' % (what, len(fr.calls)))
        for c, op, l in zip(fr.calls, calls, [x for x in log if isinstance(x, tuple) and x[0] == 'nest']):
            check_frame(c[3].frame, op[2], op[3], ro or op[1] == 'view', what, l[2])

    def run(prog, end='ok', method='run', flag=False):
        log = []
        ctx.case((prog, end, method, flag))
        ro = flag
        o = yield host.inv(program(prog, end, log), method=method, readonly=flag)
        ctx.transitions += len(prog)
        ctx.state(prog, end, method, flag)
        want = dict(ok=(0, 1), revert=(33, 'x'), **{'raise': (1, "'x'")})[end]
        if (o.status, o.result) != want:
            ctx.fail('%r ends with %r, expected %r' % (prog, o.brief(), want))
        check_frame(o.frame, prog, end, ro, repr((prog, end, method, flag)), log)
        ctx.outcome(o.frame.fee, o.status, strip(log))

    def driver(node):
        k = u[0]
        if k == 'pair':
            A = ops(ctx.tier)
            x = A[u[1]]
            for end in ENDS:
                yield from run((x,), end)
            for y in A:
                yield from run((x, y))
                # what the previous call set is not seen by the next one
                yield from run((('get',),))
        elif k == 'three':
            for rest in itertools.product(SIMPLE, repeat=2):
                yield from run((SIMPLE[u[1]],) + rest)
                yield from run((('get',),), 'ok', 'view', True)
        elif k == 'four':
            for rest in itertools.product(SIMPLE, repeat=2):
                yield from run((SIMPLE[u[1]], SIMPLE[u[2]]) + rest)
        elif k == 'modes':
            m = MODES[u[1]]
            for end in ENDS:
                for n in range(0, 3):
                    for p in itertools.product(SIMPLE, repeat=n):
                        yield from run(p, end, *m)
        elif k == 'values':
            for v in list(range(-2, 103)) + [128, 255, 256, 356, -100, 2 ** 31, 2 ** 32 + 50, 2 ** 64 + 1, -2 ** 64, 10 ** 30, False, True]:
                yield from run((('set', v),))
                yield from run((('set', 42), ('set', v)))
                yield from run((('set', v), ('get',)), 'ok', 'run', True)
        elif k == 'ill':
            # never reported as such, never seen by anybody else, and the engine goes on
            for v in ILL:
                for method, flag in MODES:
                    log = []

                    def p(s):
                        s.set_fee_sharing_proportion(v)
                        log.append(1)
                    ctx.case((v, method, flag))
                    o = yield host.inv(p, method=method, readonly=flag)
                    ctx.transitions += 1
                    ctx.state(repr(v), method, flag)
                    if o.frame.fee:
                        ctx.fail('%r reported as %r: %r' % (v, o.frame.fee, o.brief()))
                    yield from run((('get',), ('set', 3)))
                    ctx.outcome(repr(v), o.status)

    def strip(log):
        return [('nest', x[1], strip(x[2])) if isinstance(x, tuple) and x[0] == 'nest' else x for x in log]

    run_engine(driver, setup=host.setup)
    ctx.sample(dict(unit=repr(u)))
