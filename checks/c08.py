"""C08: read-only execution never changes anything.

All chains of frames (writable / flagged read-only by the node / method declared read-only) up to a depth, each frame
performing operations before and after its nested call, with errors swallowed or not and every way for the nested frame
to end, run on the real engine. The node records every state-changing message it receives while a frame is read-only.
"""
import itertools

from mc import wire as W
from mc.common import Host, A1, A2, EOA1, ST, to_py, attempt
from mc.node import run_engine, DEFAULT_COSTS_V1, FREE

TECHNIQUE = 'model checking: exhaustive enumeration of frame chains x operations on the real engine, monitored by the node'
BOUNDS = dict(
    quick='single frames: all sequences of length<=3 over 14 operations x 4 modes; chains of 2 frames: all modes x 14x14x14 operations x ends; chains of 3 frames: all 27 mode chains x 6^3 operations x 5 ends x {swallow, propagate}',
    thorough='sequences of length<=4, chains of 4 frames')

RW, FLAG, VIEW, BOTH = 'RW', 'FLAG', 'VIEW', 'BOTH'
MODES = (RW, FLAG, VIEW, BOTH)
ENDS = ('ok', 'revert', 'exc', 'exit', 'oos', 'obj', 'emoji')


def dbop(fn):
    return lambda s, o: fn(s)


def db(s):
    return s.__dict__['_mc_db']


def V(s, n='v', t=int):
    from iconservice import VarDB
    return VarDB(n, db(s), t)


def D(s):
    from iconservice import DictDB
    return DictDB('d', db(s), str, depth=2)


def A(s):
    from iconservice import ArrayDB
    return ArrayDB('a', db(s), int)


def aset(s, i, v):
    A(s)[i] = v


def dset(s, k, v):
    D(s)['x'][k] = v


def ddel(s, k):
    del D(s)['x'][k]


# operation -> (what it does with the frame's instance s and the outermost frame's instance o, status when read-only)
OPS = {
    'W': (lambda s, o: V(s).set(7), 9),
    'W2': (lambda s, o: V(s, 'w', str).set(''), 9),
    'R': (lambda s, o: V(s).remove(), 9),
    'Rn': (lambda s, o: V(s, 'none').remove(), 9),
    'DS': (lambda s, o: dset(s, 'k', 'val'), 9),
    'DD': (lambda s, o: ddel(s, 'q'), 9),
    'AP': (lambda s, o: A(s).put(5), 9),
    'AS': (lambda s, o: aset(s, 0, 6), 9),
    'AX': (lambda s, o: A(s).pop(), 9),
    'E': (lambda s, o: s.Ev(1, 'x'), 5),
    'E0': (lambda s, o: s.Ev0(), 5),
    'F': (lambda s, o: s.set_fee_sharing_proportion(30), 5),
    'fW': (lambda s, o: V(o).set(8), 9),
    'fE': (lambda s, o: o.Ev(2, 'y'), 5),
    'fF': (lambda s, o: o.set_fee_sharing_proportion(40), 5),
    'dW': (lambda s, o: db(s).put(b'raw', b'x'), 9),
    'dD': (lambda s, o: db(s).delete(b'raw'), 9),
    'G': (lambda s, o: V(s).get(), 0),
}
NAMES = list(OPS)
SMALL = ['W', 'R', 'AP', 'E', 'F', 'fW']
STATUS = {n: v[1] for n, v in OPS.items()}


def initial(host):
    h = __import__('hashlib').sha3_256
    k = lambda t, *p: h(t + b''.join(W.rlp(x) for x in p)).digest()
    r = {k(b'\x02', b'v'): b'\x03', k(b'\x01', b'd', b'x', b'q'): b'old', k(b'\x00', b'a'): b'\x08'}
    r.update({k(b'\x00', b'a', bytes([i])): b'\x09' for i in range(8)})
    return r


def units(tier):
    u = [('single', m, n) for m in MODES for n in NAMES]
    u += [('two', a, b, n) for a in (RW, FLAG, VIEW) for b in (RW, FLAG, VIEW) for n in NAMES]
    u += [('three',) + c for c in itertools.product((RW, FLAG, VIEW), repeat=3)]
    u += [('init', m) for m in MODES]
    if tier == 'thorough':
        u += [('four',) + c for c in itertools.product((RW, FLAG, VIEW), repeat=4)]
    return u


class Chain:
    """frames: list of (mode, ops before, ops after, end, swallow nested failure)."""

    def __init__(self, frames, swallow_ops=True):
        self.frames, self.swallow_ops = frames, swallow_ops
        self.log = []

    def prog(self, host, i):
        mode, pre, post, end, swallow = self.frames[i]

        def p(s):
            if i == 0:
                self.outer = s
            self.ops(s, i, pre)
            if i + 1 < len(self.frames):
                host.prog(i + 1, self.prog(host, i + 1))
                m = self.frames[i + 1][0]
                at = (A1, A2)[(i + 1) % 2] if len(self.frames) > 3 else A1
                r = attempt(s.call, to_py(at), 'view' if m in (VIEW, BOTH) else 'run', {'i': i + 1})
                self.log.append((i, 'call', 0 if r[0] == 'ok' else r[1]))
                if r[0] != 'ok' and not swallow:
                    import iconservice
                    from pyexec.base.exception import IconServiceBaseException
                    raise IconServiceBaseException.create('again', r[1])
            self.ops(s, i, post)
            if end == 'revert':
                __import__('iconservice').revert('x', 3)
            if end == 'exc':
                raise ValueError('x')
            if end == 'exit':
                raise SystemExit(3)
            if end == 'obj':
                return object()       # no protocol representation: fails after the method has returned
            if end == 'emoji':
                return ['\ud800']
            if end == 'oos':
                __import__('iconservice').sha3_256(b'\0' * (320 * 200))
            return i
        return p

    def ops(self, s, i, ops):
        for n in ops:
            r = attempt(OPS[n][0], s, self.outer)
            self.log.append((i, n, 0 if r[0] == 'ok' else r[1]))
            if r[0] != 'ok' and not self.swallow_ops:
                from pyexec.base.exception import IconServiceBaseException
                raise IconServiceBaseException.create('op', r[1])


def expect(ch, i=0, ro=False):
    """(log, status) of frame i"""
    mode, pre, post, end, swallow = ch.frames[i]
    ro = ro or mode != RW
    log = []

    def ops(names):
        for n in names:
            st = STATUS[n] if ro else 0
            if ro is False and n in ('dW', 'dD'):
                st = None       # raw access by key: only its read-only refusal is specified
            log.append((i, n, st))
            if st and not ch.swallow_ops:
                return st
        return 0
    s = ops(pre)
    if s:
        return log, s
    if i + 1 < len(ch.frames):
        l, s = expect(ch, i + 1, ro)
        log += l
        log.append((i, 'call', s))
        if s and not swallow:
            return log, s
    s = ops(post)
    if s:
        return log, s
    return log, dict(ok=0, revert=35, exc=1, exit=1, oos=10, obj=1, emoji=1)[end]


def match(a, b):
    return len(a) == len(b) and all(x[:2] == y[:2] and (y[2] is None or x[2] == y[2]) for x, y in zip(a, b))


def unit(u, ctx):
    host = Host(ctx, readonly=())
    thorough = ctx.tier == 'thorough'

    def hook(fr, req):
        i = req.params[0]
        mode = cur[0].frames[i][0]
        req.flag = (1 if fr.readonly or mode in (FLAG, BOTH) else 0) | env['trace']
        # the engine is told by the flag or by the declaration of the method
        req.readonly = fr.readonly or mode != RW
    cur = [None]
    env = dict(trace=0, n=0)

    def run(node, ch, limit=10 ** 9, how=None):
        cur[0] = ch
        # tracing requested or not; queries may come without a sender
        env['n'] += 1
        how = env['n'] if how is None else how
        env['trace'] = (0, 2)[how % 2]
        flagged = ch.frames[0][0] in (FLAG, BOTH)
        frm = (EOA1, A2, None if flagged else A1)[how // 2 % 3]
        node.stores = {A1: initial(host), A2: initial(host)}
        before = {a: dict(s) for a, s in node.stores.items()}
        node.ro_messages.clear()
        mode = ch.frames[0][0]
        ctx.case((ch.frames, ch.swallow_ops, how % 6))
        inv = host.inv(ch.prog(host, 0), method='view' if mode in (VIEW, BOTH) else 'run', limit=limit, costs=FREE if not limit else {'schema': 1, 'apiCall': 10 ** 9},
                       readonly=mode != RW, flag=(1 if mode in (FLAG, BOTH) else 0) | env['trace'], frm=frm)
        o = yield inv
        log, st = expect(ch)
        if node.ro_messages:
            ctx.fail('read-only frame sent %r' % (node.ro_messages,))
        if not match(ch.log, log) or o.status != st:
            ctx.fail('observed %r status %d\nexpected %r status %d (%r)' % (ch.log, o.status, log, st, o.result))
        if all(f[0] != RW for f in ch.frames[:1]) and node.stores != before:
            ctx.fail('state changed by a read-only call')
        ctx.transitions += len(log)
        ctx.state(ch.frames, ch.swallow_ops)
        ctx.outcome(log, st)

    def driver(node):
        node.nested_hook = hook
        k = u[0]
        if k == 'single':
            L = 4 if thorough else 3
            for n in range(0, L):
                for rest in itertools.product(NAMES, repeat=n):
                    for sw in (True, False):
                        for how in range(6) if n <= 1 else (None,):
                            yield from run(node, Chain([(u[1], (u[2],) + rest, (), 'ok', True)], sw), how=how)
        elif k == 'two':
            for end in ENDS:
                for how in range(6):
                    yield from run(node, Chain([(u[1], (u[3],), (u[3],), 'ok', True), (u[2], (u[3],), (), end, True)]), how=how)
            for pre, post in itertools.product(NAMES, repeat=2):
                for end in (ENDS if pre == 'W' else ('ok',)):
                    for sw in ((True, False) if u[1] != RW else (True,)):
                        yield from run(node, Chain([(u[1], (pre,), (post,), 'ok', True), (u[2], (u[3],), (), end, True)], sw))
        elif k == 'three':
            for a, b, c in itertools.product(SMALL, repeat=3):
                for end in ENDS:
                    for sw in (True, False):
                        yield from run(node, Chain([(u[1], (a,), (b, c), 'ok', True), (u[2], (b,), (c,), 'ok', sw), (u[3], (c,), (a,), end, True)]))
        elif k == 'four':
            for a, b, c in itertools.product(SMALL, repeat=3):
                for end in ENDS:
                    yield from run(node, Chain([(u[1], (a,), (b,), 'ok', True), (u[2], (b,), (c,), 'ok', end != 'exc'), (u[3], (c,), (a,), 'ok', end != 'revert'), (u[4], (a,), (c,), end, True)]))
        elif k == 'init':
            # writes by the constructor, which runs before the method, under the flag
            for n in NAMES:
                for m in (FLAG, BOTH):
                    got = []

                    def init_hook(s, d):
                        if node.frames and node.frames[-1].req.flag & 1:
                            got.append(attempt(OPS[n][0], s, s))
                    host.h.init_hook = init_hook
                    ctx.case(('constructor', u[1], m, n))
                    ch = Chain([(u[1], ('G',), ('G',), 'ok', True), (m, ('G',), (), 'ok', True)])
                    yield from run(node, ch)
                    host.h.init_hook = None
                    exp = ('ok', 0) if n == 'G' else ('err', STATUS[n])
                    if not got or any(g[0] != exp[0] or (g[0] == 'err' and g[1] != exp[1]) for g in got):
                        ctx.fail('constructor of a read-only call: %s gives %r' % (n, got))
    n = run_engine(driver, setup=host.setup)
    ctx.sample(dict(unit=u))
