"""C13: event logs carry exactly the declared signature, indexing and data.

Contracts with every event declaration of a bounded grammar emit every argument shape through the real engine; the EVENT
messages the node receives are compared, in order, with the sequence computed from the declarations.
"""
import itertools

from mc import wire as W
from mc.common import A1, A2, code_of, to_py, Host, ST
from mc.node import run_engine, Invoke, Contract, GetApi

TECHNIQUE = 'model checking: exhaustive enumeration of event declarations and argument shapes of a bounded grammar on the real engine, against an independent encoding'
BOUNDS = dict(
    quick='all declarations of <=3 parameters over 6 hints and of 4 over 3, x all indexed counts, x every split into positional/keyword/default, x value menus (18 values for 1 parameter, 9 pairs, 3^3, 2^4); wrong count/type/duplicates; all emission sequences of <=3 over 9 steps in 5 methods and nested calls; 60 illegal declarations',
    thorough='4 parameters over 5 hints, full value menus for pairs, sequences of <=4')

HINTS = ['int', 'str', 'bytes', 'bool', 'Address', "'Address'"]
AE, AC = W.addr(0, 0xabc), W.addr(1, 0xdef)
WRONG = ('WRONG',)
GOOD = {
    'int': [0, 1, -1, 127, 128, -128, -129, 255, 256, 1 << 64, -(1 << 255), (1 << 256) - 1],
    'str': ['', 'a', '\u00e9\U0001f600', '\0', 'x' * 300],
    'bytes': [b'', b'\0', b'ab', b'\xff' * 33],
    'bool': [True, False],
    'Address': [AE, AC, W.Addr(0, bytes(20)), W.Addr(1, b'\xff' * 20)],
}
BAD = {
    'int': ['1', 1.0, b'\1', AE, [1]], 'str': [b'a', 1, True, AE, ['a']], 'bytes': ['a', bytearray(b'a'), 1, AE, [1]],
    'bool': [1, 0, 'True', b'\1'], 'Address': [AE.text, AE.raw, 1, [AE]],
}


def base(h):
    return h.strip("'")


def enc(v):
    if v is None:
        return None
    if isinstance(v, W.Addr):
        return v.raw
    if isinstance(v, bool):
        return b'\1' if v else b'\0'
    if isinstance(v, int):
        return W.int_enc(v)
    if isinstance(v, str):
        return v.encode('utf-8')
    return v


class Ev:
    def __init__(self, name, hints, indexed, defaults=()):
        self.name, self.hints, self.indexed, self.defaults = name, hints, indexed, defaults

    @property
    def src(self):
        n = len(self.hints)
        ps = []
        for i, h in enumerate(self.hints):
            j = i - (n - len(self.defaults))
            ps.append(', p%d: %s%s' % (i, h, ' = %s' % lit(self.defaults[j]) if j >= 0 else ''))
        deco = '@eventlog(indexed=%d)' % self.indexed if self.indexed else '@eventlog'
        return '    %s\n    def %s(self%s):\n        c13host.body()\n' % (deco, self.name, ''.join(ps))

    def expect(self, args, kw):
        """(indexed, data) or None if the emission has to fail"""
        n = len(self.hints)
        vals = []
        if len(args) + len(kw) > n:
            return None
        for i, h in enumerate(self.hints):
            k = 'p%d' % i
            if i < len(args):
                if k in kw:
                    return None
                v = args[i]
            elif k in kw:
                v = kw[k]
            else:
                j = i - (n - len(self.defaults))
                if j < 0:
                    return None
                v = self.defaults[j]
            if v is not None and not isinstance(v, {'int': int, 'str': str, 'bytes': bytes, 'bool': bool, 'Address': W.Addr}[base(h)]):
                return None
            if isinstance(v, W.Addr) and base(h) != 'Address':
                return None
            vals.append(enc(v))
        sig = ('%s(%s)' % (self.name, ','.join(base(h) for h in self.hints))).encode('utf-8')
        return [sig] + vals[:self.indexed], vals[self.indexed:]


def lit(v):
    return 'Address.from_string(%r)' % v.text if isinstance(v, W.Addr) else repr(v)


SRC = '''
import c13host
from typing import List, Dict, Union, Optional
from iconservice import IconScoreBase, external, payable, eventlog, Address
%(extra)s
class Base(IconScoreBase):
%(base)s
class Score(Base):
    def __init__(self, db):
        super().__init__(db)
        self.__dict__['_mc_db'] = db
        c13host.init(self)
    def on_install(self): return c13host.run(self, 'on_install')
    def on_update(self): return c13host.run(self, 'on_update')
    @external
    def run(self): return c13host.run(self, 'run')
    @payable
    @external
    def pay(self): return c13host.run(self, 'pay')
    @payable
    def fallback(self): return c13host.run(self, 'fallback')
%(body)s
'''


def shapes(n, ndef):
    """(number of positional arguments, parameters passed by keyword); omitted ones have defaults"""
    for k in range(n + 1):
        rest = range(k, n)
        for r in range(len(rest) + 1):
            for c in itertools.combinations(rest, r):
                if all(i in c or i >= n - ndef for i in rest):
                    yield k, c


def install():
    import sys
    import types
    h = types.ModuleType('c13host')
    h.prog = None
    h.init_prog = None
    h.bodies = 0

    def body():
        h.bodies += 1

    def run(s, m):
        return h.prog(s, m)

    def init(s):
        if h.init_prog:
            h.init_prog(s)
    h.body, h.run, h.init = body, run, init
    sys.modules['c13host'] = h
    return h


def units(tier):
    u = [('n01',)] + [('n2', a) for a in HINTS] + [('n3', a, b) for a in HINTS for b in HINTS]
    t4 = HINTS[:5] if tier == 'thorough' else ['int', 'str', 'Address']
    u += [('n4', a, b) for a in t4 for b in t4]
    u += [('default', a) for a in HINTS] + [('count', n) for n in range(5)] + [('seq', m) for m in METHODS]
    u += [('nested',), ('reserved',), ('places',)] + [('bad', i) for i in range(4)]
    return u


METHODS = ['run', 'pay', 'fallback', 'on_install', 'on_update']


def unit(u, ctx):
    h = install()
    T = ctx.tier == 'thorough'

    def emit_all(c, evs, cases, size=200):
        """cases: (event, args, kw)"""
        it = iter(cases)
        while True:
            chunk = list(itertools.islice(it, size))
            if not chunk:
                return
            log = []

            def p(s, m):
                for e, args, kw in chunk:
                    a = [to_py(x) if isinstance(x, W.Addr) else x for x in args]
                    k = {n: to_py(x) if isinstance(x, W.Addr) else x for n, x in kw.items()}
                    try:
                        getattr(s, e.name)(*a, **k)
                        log.append(0)
                    except BaseException as x:   # noqa
                        log.append(code_of(x))
            h.prog = p
            ctx.case([(e.name, args, kw) for e, args, kw in chunk[:3]])
            h.bodies = 0
            o = yield Invoke(c, 'run', [])
            check(o, chunk, log)

    def check(o, chunk, log):
        got = [(t[1], t[2]) for t in o.frame.trace if t[0] == 'event']
        want = []
        for n, (e, args, kw) in enumerate(chunk):
            x = e.expect(args, kw)
            ctx.transitions += 1
            ctx.state(e.src, args, kw)
            ctx.outcome(x)
            if n >= len(log) or (log[n] == 0) != (x is not None):
                ctx.cur = (e.src, args, kw)
                ctx.fail('%s called with %r %r gives code %r, expected %s' % (e.src, args, kw, log[n:n + 1], 'success' if x else 'failure'))
            elif x is None and log[n] != ST['FORMAT']:
                ctx.fail('%s called with %r %r fails with code %r' % (e.src, args, kw, log[n]))
            if x is not None:
                want.append(x)
                if len(got) < len(want) or got[len(want) - 1] != x:
                    ctx.cur = (e.src, args, kw)
                    ctx.fail('%s called with %r %r gives %r, expected %r' % (e.src, args, kw, got[len(want) - 1:len(want)], x))
        ctx.execs += len(chunk) - 1
        if len(got) != len(want) or o.status != 0:
            ctx.fail('%d events for %d emissions, status %d %r' % (len(got), len(want), o.status, o.result))
        if h.bodies:
            ctx.fail('the body of an event ran')

    def menu(hint, lvl):
        g, b = GOOD[base(hint)], BAD[base(hint)]
        if lvl == 3:
            return g + [None] + b
        if lvl == 2:
            return g[:5] + [None] + b[:2]
        if lvl == 1:
            return [g[0], None, b[0]]
        return [g[1], None]

    def make(evs, base='    pass', extra=''):
        return Contract(A1, ctx.scores.make(SRC % dict(extra=extra, base=base, body=''.join(e.src for e in evs))), order={})

    def full(hints, lvl):
        evs = [Ev('E%d' % i, hints, i) for i in range(min(3, len(hints)) + 1)]

        def cases():
            for vals in itertools.product(*[menu(x, lvl) for x in hints]):
                for e in evs:
                    for k in range(len(hints) + 1):
                        yield e, list(vals[:k]), {'p%d' % i: vals[i] for i in range(k, len(hints))}
                        if len(hints) - k > 1:
                            yield e, list(vals[:k]), {'p%d' % i: vals[i] for i in reversed(range(k, len(hints)))}
        return evs, cases()

    def driver(node):
        k = u[0]
        if k == 'n01':
            for hs in [()] + [(x,) for x in HINTS]:
                evs, cs = full(hs, 3)
                yield from emit_all(make(evs), evs, cs)
        elif k in ('n2', 'n3', 'n4'):
            n = int(k[1])
            rest = n - len(u) + 1
            for r in itertools.product(HINTS if n < 4 else HINTS[:5] if T else ['int', 'str', 'Address'], repeat=rest):
                evs, cs = full(u[1:] + r, {2: 3 if T else 2, 3: 2 if T else 1, 4: 0}[n])
                yield from emit_all(make(evs), evs, cs)
        elif k == 'default':
            for L in (1, 2, 3, 4):
                tails = itertools.product(HINTS[:5] if L < 4 else ('int', 'Address'), repeat=L - 1)
                for r in tails:
                    hs = (u[1],) + r if L % 2 else r + (u[1],)
                    evs = []
                    for nd in range(1, L + 1):
                        for pick in (0, 1):
                            ds = tuple([None, GOOD[base(x)][-1]][(pick + j) % 2] for j, x in enumerate(hs[L - nd:]))
                            evs.append(Ev('E%d_%d' % (nd, pick), hs, (nd + pick) % (min(3, L) + 1), ds))

                    def cases():
                        for e in evs:
                            for np, kws in shapes(L, len(e.defaults)):
                                for off in (0, 1):
                                    v = lambda i: GOOD[base(hs[i])][(i + off) % 2]
                                    yield e, [v(i) for i in range(np)], {'p%d' % i: v(i) for i in kws}
                    yield from emit_all(make(evs), evs, cases())
        elif k == 'count':
            n = u[1]
            for nd in range(0, n + 1):
                hs = ('int',) * n
                evs = [Ev('E%d' % i, hs, i, (7,) * nd) for i in range(min(3, n) + 1)]

                def cases():
                    for e in evs:
                        for a in range(n + 3):
                            for r in range(n + 1):
                                for kws in itertools.combinations(range(n), r):
                                    yield e, list(range(a)), {'p%d' % i: 100 + i for i in kws}
                                    if kws and min(kws) < a:
                                        yield e, list(range(a)), {'p%d' % i: i for i in kws}
                            if a + 1 > n or a < n - nd:
                                # an argument that is not declared (one too many, or instead of a required one)
                                yield e, list(range(a)), {'zz': 1}
                                yield e, list(range(a)), {'self': 1} if a + 1 > n else {'name': 1}
                ctx.cur = None
                yield from emit_all(make(evs), evs, (c for c in cases() if 'self' not in c[2]))
        elif k == 'seq':
            yield from seq(u[1])
        elif k == 'nested':
            yield from nested(node)
        elif k == 'reserved':
            for name, hs, ok in (('ICXTransfer', ('Address', 'Address', 'int'), False), ('ICXTransfer', ("'Address'", 'Address', 'int'), False),
                                 ('ICXTransfer', ('Address', 'Address', 'bytes'), True), ('ICXTransfer', ('Address', 'int'), True),
                                 ('ICXTransfer', ('Address', 'Address', 'int', 'int'), True), ('icxTransfer', ('Address', 'Address', 'int'), True),
                                 ('ICXTransfer_', ('Address', 'Address', 'int'), True), ('ICXTransfer', ('Address', 'Address', 'bool'), True)):
                for idx in range(min(3, len(hs)) + 1):
                    e = Ev(name, hs, idx)
                    args = [GOOD[base(x)][0] for x in hs]
                    if ok:
                        yield from emit_all(make([e]), [e], [(e, args, {}), (e, [None] * len(hs), {})])
                    else:
                        c = make([e])
                        got = []

                        def p(s, m):
                            for a in (args, [None] * 3):
                                try:
                                    getattr(s, name)(*[to_py(x) for x in a])
                                    got.append(0)
                                except BaseException as x:   # noqa
                                    got.append(code_of(x))
                        h.prog = p
                        ctx.case((name, hs, idx))
                        o = yield Invoke(c, 'run', [])
                        if got != [5, 5] or o.frame.trace:
                            ctx.fail('reserved event: %r, node saw %r' % (got, o.frame.trace))
        elif k == 'places':
            # inherited, overriding and overridden declarations, a constructor, unusual names
            b = '    @eventlog(indexed=1)\n    def Inh(self, p0: int, p1: str): c13host.body()\n    @eventlog\n    def Ovr(self, p0: int): c13host.body()\n'
            evs = [Ev('Ovr', ('str', 'bytes'), 2), Ev('\u00e9v\u00e9nement', ('int',), 1), Ev('_x', ('bool',), 0), Ev('run_', (), 0), Ev('E' * 200, ('Address',), 1)]
            c = make(evs, base=b)
            e0 = Ev('Inh', ('int', 'str'), 1)
            yield from emit_all(c, evs, [(e0, [5, 'x'], {}), (e0, ['x', 5], {}), (evs[0], ['x', b'y'], {}), (evs[0], [1], {}), (evs[1], [3], {}), (evs[2], [True], {}), (evs[3], [], {}), (evs[4], [AE], {})])
            mod = 'class P(IconScoreBase):\n    @eventlog(indexed=1)\n    def Far(self, p0: Address): c13host.body()\n'
            c2 = Contract(A1, ctx.scores.make((SRC % dict(extra=mod, base='    pass', body='')).replace('class Base(IconScoreBase)', 'class Base(P)')), order={})
            e1 = Ev('Far', ('Address',), 1)
            yield from emit_all(c2, [e1], [(e1, [AE], {}), (e1, [], {'p0': AC}), (e1, [], {})])
            got = []

            def init(s):
                got.append(1)
                s.Far(to_py(AC))
            h.init_prog = init
            h.prog = lambda s, m: s.Far(to_py(AE))
            ctx.case('constructor')
            o = yield Invoke(c2, 'run', [])
            h.init_prog = None
            if [t[1:] for t in o.frame.trace] != [e1.expect([AC], {}), e1.expect([AE], {})]:
                ctx.fail('constructor: %r status %d %r' % (o.frame.trace, o.status, o.result))
        elif k == 'bad':
            yield from bad(u[1])

    def seq(m):
        E1, E2, E3 = Ev('A', ('int',), 1), Ev('B', ('str', 'int'), 1, (9,)), Ev('C', (), 0)
        c = make([E1, E2, E3])
        steps = {'a': (E1, [1], {}), 'A': (E1, [], {'p0': -5}), 'b': (E2, ['x'], {}), 'B': (E2, [], {'p1': 3, 'p0': 'y'}), 'c': (E3, [], {}),
                 'x': (E1, ['bad'], {}), 'y': (E2, [], {}), 'w': None, 'g': None}
        for n in range(0, 5 if T else 4):
            for s_ in itertools.product(steps, repeat=n):
                want = []
                for x in s_:
                    if x == 'w':
                        want.append('set')
                    elif x == 'g':
                        want.append('get')
                    else:
                        r = steps[x][0].expect(*steps[x][1:])
                        if r:
                            want.append(r)

                def p(s, mm):
                    from iconservice import VarDB
                    v = VarDB('v', s.__dict__['_mc_db'], int)
                    for x in s_:
                        if x == 'w':
                            v.set(len(want))
                        elif x == 'g':
                            v.get()
                        else:
                            e, a, kw = steps[x]
                            try:
                                getattr(s, e.name)(*a, **kw)
                            except BaseException:   # noqa
                                pass
                h.prog = p
                ctx.case((m, s_))
                o = yield Invoke(c, m, [])
                got = [(t[1], t[2]) if t[0] == 'event' else t[0] for t in o.frame.trace]
                # reads and writes may be served or batched by the engine, events may not
                if [x for x in got if isinstance(x, tuple)] != [x for x in want if isinstance(x, tuple)] or o.status != 0:
                    ctx.fail('%r: node saw %r, expected %r, status %d %r' % (s_, got, want, o.status, o.result))
                ctx.transitions += n
                ctx.state(m, s_)
                ctx.outcome(want)

    def nested(node):
        # caller and callee events: each in its own frame, standing ones in program order
        E = Ev('A', ('int',), 1)
        c1, c2 = make([E]), make([Ev('A', ('int',), 0)])
        node.contracts = {A1: Contract(A1, c1.code, order={}), A2: Contract(A2, c2.code, order={})}
        for pre, mid, post, end, catch in itertools.product(range(3), range(3), range(3), ('ok', 'revert', 'exc', 'sysexit'), (True, False)):
            want_in = [(A2, [b'A(int)'], [W.int_enc(50 + i)]) for i in range(mid)]
            mk = lambda v: (A1, [b'A(int)', W.int_enc(v)], [])
            st = {'ok': 0, 'revert': 35, 'exc': 1, 'sysexit': 1}[end]
            want = [mk(i) for i in range(pre)] + (want_in if not st else []) + [mk(10 + i) for i in range(post)]

            def p(s, m):
                if s.address.to_bytes() == A2.raw:
                    for i in range(mid):
                        s.A(50 + i)
                    if end == 'revert':
                        __import__('iconservice').revert('r', 3)
                    if end == 'exc':
                        raise KeyError('x')
                    if end == 'sysexit':
                        raise SystemExit(0)
                    return
                for i in range(pre):
                    s.A(i)
                try:
                    s.call(to_py(A2), 'run', {})
                except BaseException:   # noqa
                    if not catch:
                        raise
                for i in range(post):
                    s.A(10 + i)
            h.prog = p
            ctx.case((pre, mid, post, end, catch))
            o = yield Invoke(node.contracts[A1], 'run', [])
            fails = st and not catch
            if o.status != (st if fails else 0) or (not fails and o.frame.events != want):
                ctx.fail('status %d %r standing events %r, expected %r' % (o.status, o.result, o.frame.events, want))
            tr = [(t[1], t[2]) for t in o.frame.trace if t[0] == 'event']
            wt = [(x[1], x[2]) for x in want if x[0] == A1]
            if fails:
                wt = wt[:pre]
            if tr != wt:
                ctx.fail('events of the caller frame %r, expected %r' % (tr, wt))
            ctx.transitions += pre + mid + post
            ctx.state(pre, mid, post, end, catch)
            ctx.outcome(want, st)

    def bad(part):
        ok = ['int', 'str', 'bytes', 'bool', 'Address', "'Address'"]
        hints = ['float', 'list', 'dict', 'List[int]', 'Dict[str, int]', 'Optional[int]', 'Union[int, str]', 'object', "'int'", "'str'", 'tuple', 'type(None)', 'None', '5', "''",
                 'bytearray', 'set', 'complex', 'IconScoreBase']
        decls = []
        if part == 0:
            for x in hints:
                for pos in range(3):
                    for idx in (0, 1):
                        ps = ['a: int', 'b: str', 'c: bytes']
                        ps[pos] = 'abc'[pos] + ': ' + x
                        decls.append(('@eventlog(indexed=%d)' % idx, 'self, ' + ', '.join(ps)))
        elif part == 1:
            for n in range(0, 6):
                for idx in range(n + 1, 8):
                    decls.append(('@eventlog(indexed=%d)' % idx, ', '.join(['self'] + ['p%d: %s' % (i, ok[i]) for i in range(n)])))
            for n in range(4, 7):
                for idx in range(4, n + 1):
                    decls.append(('@eventlog(indexed=%d)' % idx, ', '.join(['self'] + ['p%d: %s' % (i, ok[i % 6]) for i in range(n)])))
        elif part == 2:
            for n in range(1, 5):
                for pos in range(n):
                    for d in ('', ' = 5'):
                        ps = ['p%d: int%s' % (i, ' = 1' if i > pos and d else '') for i in range(n)]
                        ps[pos] = 'p%d%s' % (pos, d)
                        for idx in range(0, min(3, n) + 1):
                            decls.append(('@eventlog(indexed=%d)' % idx, 'self, ' + ', '.join(ps)))
        else:
            for ps in ('a: int', 'me, a: int', 'a: int, self', 'this'):
                decls.append(('@eventlog', ps))
                decls.append(('@eventlog(indexed=1)', ps))
            for d in ('@eventlog\n    @eventlog', '@eventlog(indexed=1)\n    @eventlog', '@external\n    @eventlog', '@eventlog\n    @external', '@payable\n    @eventlog', '@eventlog\n    @payable'):
                decls.append((d, 'self, a: int'))
        for d, ps in decls:
            body = '    %s\n    def Bad(%s): pass\n' % (d, ps)
            code = ctx.scores.make(SRC % dict(extra='', base='    pass', body=body))
            ctx.case(body)
            ctx.transitions += 1
            ctx.state(body)
            h.prog = lambda s, m: 5
            o = yield GetApi(code)
            if o.status == 0:
                ctx.fail('illegal event accepted:\n' + body)
            o2 = yield Invoke(Contract(A1, code, order={}), 'run', [])
            if o2.status == 0 and '\n    @' not in body[5:]:
                ctx.fail('contract with an illegal event runs:\n' + body)
            ctx.outcome(o.status)
    run_engine(driver)
    ctx.sample(dict(unit=repr(u)))
