"""C10: the published API describes the contract exactly.

Contracts generated from a grammar (decorators x parameter lists x type hints x defaults x return hints x definition
site) are loaded by the real engine; the GETAPI reply is compared with a description computed from the grammar, entry by
entry. Declarations outside the grammar, one per contract, must be refused.
"""
import itertools

from mc import wire as W
from mc.common import A1, forked
from mc.node import run_engine, GetApi, Invoke, Contract, FREE

TECHNIQUE = 'model checking: exhaustive enumeration of declarations of a bounded grammar loaded by the real engine, against a description computed from the grammar'
BOUNDS = dict(
    quick='all methods of <=2 parameters over 25 hint/default forms x 4 decorator combinations, 3 parameters over 11 forms, events of <=4 parameters over 8 forms x indexed counts, 40 return hints x 2, structs of depth<=4 and sizes 0..17; 150 illegal declarations one by one in every position',
    thorough='3 parameters over 16 forms, all pairs of illegal with legal neighbours')

HEAD = '''
from typing import List, Dict, Union, Optional, Any, Tuple, Set
from typing_extensions import TypedDict
from iconservice import IconScoreBase, external, payable, eventlog, interface, isolated, Address, AddressPrefix
class S0(TypedDict):
    pass
class S1(TypedDict):
    x: int
class S2(TypedDict):
    a: Address
    b: bytes
    c: str
    d: bool
    e: int
class S3(TypedDict):
    s: S1
    l: List[int]
    m: List[List[str]]
class S4(TypedDict):
    l: List[S2]
    t: S3
class S5(S1):
    y: str
class S16(TypedDict):
''' + ''.join('    f%d: int\n' % i for i in range(16)) + '''
class S17(TypedDict):
''' + ''.join('    f%d: int\n' % i for i in range(17)) + '''
class SBad1(TypedDict):
    a: float
class SBad2(TypedDict):
    a: Dict[str, int]
class SBad3(TypedDict):
    a: S1
    b: List[SBad1]
class SBad4(TypedDict):
    a: SBad2
class SBad5(TypedDict):
    a: 'SBad5'
class SBad6(TypedDict):
    a: list
class Plain:
    pass
ADDR = Address.from_string('cx' + '12' * 20)
'''
INT, STR, BYTES, BOOL, ADDR, LIST, DICT, STRUCT = range(1, 9)
ARR = 0x10
S = {
    'S0': [],
    'S1': [('x', INT)],
    'S2': [('a', ADDR), ('b', BYTES), ('c', STR), ('d', BOOL), ('e', INT)],
    'S3': [('s', STRUCT, 'S1'), ('l', ARR + INT), ('m', 2 * ARR + STR)],
    'S4': [('l', ARR + STRUCT, 'S2'), ('t', STRUCT, 'S3')],
    'S5': [('x', INT), ('y', STR)],
    'S16': [('f%d' % i, INT) for i in range(16)],
}


def fields(name):
    r = []
    for f in S[name]:
        r.append([f[0].encode(), f[1], None] + ([fields(f[2])] if len(f) > 2 else []))
    return r


# parameter forms: (hint source or None, default source or None, type code, encoded default, struct)
NODEF = object()
AB = bytes([1]) + b'\x12' * 20
FORMS = [
    ('int', None, INT, None, None), ('str', None, STR, None, None), ('bytes', None, BYTES, None, None),
    ('bool', None, BOOL, None, None), ('Address', None, ADDR, None, None), ("'Address'", None, ADDR, None, None),
    (None, None, STR, None, None), ('List[int]', None, ARR + INT, None, None), ('List[List[Address]]', None, 2 * ARR + ADDR, None, None),
    ('List[S1]', None, ARR + STRUCT, None, 'S1'), ('S2', None, STRUCT, None, 'S2'), ('S4', None, STRUCT, None, 'S4'),
    ('Optional[int]', None, INT, None, None), ('S5', None, STRUCT, None, 'S5'),
    ('int', 'None', INT, None, None), ('int', '0', INT, b'\x00', None), ('int', '-129', INT, b'\xff\x7f', None),
    ('int', '1 << 70', INT, W.int_enc(1 << 70), None), ('str', "'t\\u00e9'", STR, 't\u00e9'.encode(), None), ('str', "''", STR, b'', None),
    ('bytes', "b'\\x00z'", BYTES, b'\0z', None), ('bool', 'True', BOOL, b'\x01', None), ('bool', 'False', BOOL, b'\x00', None),
    ('Address', 'ADDR', ADDR, AB, None), ('Optional[int]', '5', INT, b'\x05', None),
    ('List[int]', 'None', ARR + INT, None, None), ('S1', 'None', STRUCT, None, 'S1'), ('Union[bytes, None]', 'None', BYTES, None, None),
    ('Optional[Address]', 'None', ADDR, None, None), (None, "'x'", STR, b'x', None), ('List[List[List[List[bool]]]]', None, 4 * ARR + BOOL, None, None),
    ('S16', None, STRUCT, None, 'S16'), ('S3', None, STRUCT, None, 'S3'), ('Optional[List[S4]]', 'None', ARR + STRUCT, None, 'S4'),
]
RETURNS = [  # for read-only methods
    (None, []), ('None', []), ('int', [INT]), ('str', [STR]), ('bytes', [BYTES]), ('bool', [BOOL]), ('Address', [ADDR]),
    ('list', [LIST]), ('List[int]', [LIST]), ('List[S1]', [LIST]), ('dict', [DICT]), ('Dict[str, int]', [DICT]), ('S1', [DICT]),
    ('S4', [DICT]), ('List[List[str]]', [LIST]), ("'Address'", [ADDR]),
]
DECOS = [(('external',), 2), (('external(readonly=True)',), 3), (('payable', 'external'), 6), (('external', 'payable'), 6)]

BAD_HINTS = ['float', 'object', 'dict', 'Dict[str, int]', 'Dict[str, S1]', 'list', 'List', 'tuple', 'Tuple[int]', 'set', 'Any', "'int'", "'str'",
             "'List[int]'", "'S1'", 'Union[int, str]', 'Union[int, str, None]', 'List[float]', 'List[Dict[str, int]]', 'List[List[object]]',
             'SBad1', 'SBad2', 'SBad3', 'SBad4', 'SBad5', 'SBad6', 'S17', 'List[SBad1]', 'Optional[float]', 'Optional[SBad2]', 'type', 'Plain',
             'complex', 'bytearray', 'callable', '1', "''", 'Set[int]', 'Optional[Dict[str, int]]', 'List[Any]', 'IconScoreBase']
BAD_DEFAULTS = [('int', "'1'"), ('int', 'True'), ('int', "b'1'"), ('int', '1.0'), ('int', '[]'), ('int', 'ADDR'), ('str', '1'), ('str', "b'x'"), ('str', 'ADDR'),
                ('bytes', "'x'"), ('bytes', '1'), ('bytes', "bytearray(b'x')"), ('bool', '1'), ('bool', '0'), ('bool', "'True'"), ('Address', "'cx" + '12' * 20 + "'"),
                ('Address', "b'" + '1' * 21 + "'"), ('Address', '0'), ('S1', "{'x': 'y'}['x']"), ('List[int]', '1'), ('List[int]', "'x'"),
                ('Optional[int]', "'x'"), ('Optional[str]', '1'), (None, '1'), (None, "b'x'"), (None, 'False'), ("'Address'", "'x'"), ('int', 'object()')]
BASE = '''    def __init__(self, db): super().__init__(db)
    def on_install(self): pass
    def on_update(self): pass
'''


def param(i, f):
    n = 'p%d' % i
    return n + (': %s' % f[0] if f[0] else '') + ('%s= %s' % (' ', f[1]) if f[1] else '')


def ordered(fs):
    """Python wants parameters with defaults last."""
    seen = False
    for f in fs:
        if f[1]:
            seen = True
        elif seen:
            return False
    return True


def inputs(fs, event=False):
    r = []
    for i, f in enumerate(fs):
        e = [b'p%d' % i, f[2], None if event else f[3]]
        if f[4]:
            e.append(fields(f[4]))
        r.append(e)
    return r


def method(name, decos, fs, ret=None):
    return ''.join('    @%s\n' % d for d in decos) + '    def %s(%s)%s: pass\n' % (
        name, ', '.join(['self'] + [param(i, f) for i, f in enumerate(fs)]), ' -> %s' % ret if ret else '')


def entry(name, flags, fs, outputs=()):
    return [0, name.encode(), flags, sum(1 for f in fs if not f[1]), inputs(fs), list(outputs)]


HOOKS = [[0, b'on_install', 0, 0, [], []], [0, b'on_update', 0, 0, [], []]]


def canon(x):
    return repr(x)


def units(tier):
    u = [('m', d, i) for d in range(len(DECOS)) for i in range(len(FORMS))]
    u += [('m3', i) for i in range(12)]
    u += [('ev', i) for i in range(8)]
    u += [('ret',), ('hooks',), ('structs',), ('inherit',), ('fallback',), ('default',), ('flags',)]
    u += [('badhint', i) for i in range(len(BAD_HINTS))]
    u += [('baddef',), ('badform',), ('badevent',), ('sequence',)]
    return u


class Run:
    def __init__(self, ctx):
        self.ctx = ctx
        self.batch = []

    def source(self, body, cls='class Score(IconScoreBase):\n', base=BASE, extra=''):
        return HEAD + extra + cls + base + body

    def ask(self, src, expect, what, exact=True):
        """expect: list of entries, or None if the contract has to be refused."""
        ctx = self.ctx
        code = ctx.scores.make(src)
        ctx.case(what)
        o = yield GetApi(code)
        ctx.transitions += 1
        ctx.state(what)
        if expect is None:
            ctx.outcome('refused', o.status)
            if o.status == 0:
                ctx.fail('%s: illegal declaration accepted\n%s' % (what, tail(src)))
            elif o.data is not None:
                ctx.fail('%s: refusal carries data' % (what,))
        else:
            if o.status != 0:
                ctx.fail('%s: legal contract refused with status %d\n%s' % (what, o.status, tail(src)))
                return
            got = sorted(o.data, key=canon)
            want = sorted(expect, key=canon)
            ctx.outcome(canon(want))
            if got != want:
                g = [x for x in got if x not in want]
                w = [x for x in want if x not in got]
                ctx.fail('%s: API differs\n  published: %r\n  declared:  %r' % (what, g[:3], w[:3]))
        import shutil
        shutil.rmtree(code)


def tail(src):
    return '\n'.join(src.split("ADDR = ")[1].split('\n')[1:])[:600]


def pack(run, methods, what, size=60):
    """methods: iterable of (source, entry); several to a contract."""
    it = iter(methods)
    n = 0
    while True:
        chunk = list(itertools.islice(it, size))
        if not chunk:
            return
        n += 1
        body = ''.join(c[0] for c in chunk)
        yield from run.ask(run.source(body), HOOKS + [c[1] for c in chunk if c[1] is not None], what + (n,))
        run.ctx.execs += len(chunk) - 1
        for c in chunk:
            run.ctx.state(c[0])


def unit(u, ctx):
    run = Run(ctx)
    T = ctx.tier == 'thorough'
    k = u[0]

    def driver(node):
        if k == 'm':
            decos, flags = DECOS[u[1]]

            def gen():
                n = 0
                for rest in [()] + [(f,) for f in FORMS]:
                    fs = (FORMS[u[2]],) + rest
                    if not ordered(fs):
                        continue
                    n += 1
                    yield method('m%d' % n, decos, fs, 'int' if n % 2 else None), entry('m%d' % n, flags, fs, [INT] if flags == 3 and n % 2 else [])
            yield from pack(run, gen(), u)
        elif k == 'm3':
            idx = [0, 1, 3, 4, 8, 9, 11, 14, 15, 21, 23] + ([6, 12, 18, 25, 26] if T else [])

            def gen():
                n = 0
                for fs in itertools.product([FORMS[i] for i in idx], repeat=3):
                    n += 1
                    if n % 12 != u[1] or not ordered(fs):
                        continue
                    yield method('m%d' % n, DECOS[0][0], fs), entry('m%d' % n, 2, fs)
            yield from pack(run, gen(), u)
        elif k == 'ev':
            evf = [('int', None, INT, None, None), ('str', None, STR, None, None), ('bytes', None, BYTES, None, None), ('bool', None, BOOL, None, None),
                   ('Address', None, ADDR, None, None), ("'Address'", None, ADDR, None, None), ('int', '3', INT, None, None), ('Address', 'None', ADDR, None, None)]

            def gen():
                n = 0
                for L in range(0, 4 if not T else 5):
                    for fs in itertools.product(evf, repeat=L):
                        if not ordered(fs) or (fs and fs[0] is not evf[u[1]]):
                            continue
                        for indexed in range(0, min(3, len(fs)) + 1):
                            n += 1
                            deco = 'eventlog(indexed=%d)' % indexed if indexed or n % 2 else 'eventlog'
                            yield method('E%d' % n, [deco], fs), [2, b'E%d' % n, 0, indexed, inputs(fs, True), []]
            # a contract needs an external method as well
            it = gen()
            n = 0
            while True:
                chunk = list(itertools.islice(it, 60))
                if not chunk:
                    break
                n += 1
                ctx.execs += len(chunk) - 1
                body = method('zz', ['external'], ()) + ''.join(c[0] for c in chunk)
                yield from run.ask(run.source(body), HOOKS + [entry('zz', 2, ())] + [c[1] for c in chunk], u + (n,))
                for c in chunk:
                    ctx.state(c[0])
        elif k == 'ret':
            def gen():
                for n, (r, out) in enumerate(RETURNS):
                    for decos, flags in DECOS:
                        nm = 'm%d_%d_%d' % (n, flags, decos[0] == 'payable')
                        yield method(nm, decos, (FORMS[0],), r), entry(nm, flags, (FORMS[0],), out if flags == 3 else [])
            yield from pack(run, gen(), u)
        elif k == 'hooks':
            base = '    def __init__(self, db): super().__init__(db)\n'
            ext = method('zz', ['external'], ())
            for a, b in itertools.product(FORMS, FORMS[:3] + FORMS[14:17]):
                fa, fb = (a,), (b,)
                body = base + method('on_install', [], fa) + method('on_update', [], fb) + ext
                yield from run.ask(run.source(body, base=''), [entry('on_install', 0, fa), entry('on_update', 0, fb), entry('zz', 2, ())], u + (a[:2], b[:2]))
            for name in ('on_install', 'on_update'):
                for d in ('external', 'external(readonly=True)', 'payable', 'eventlog', 'isolated'):
                    other = 'on_update' if name == 'on_install' else 'on_install'
                    body = base + method(name, [d], ()) + method(other, [], ()) + ext
                    yield from run.ask(run.source(body, base=''), None, u + (name, d))
        elif k == 'structs':
            for depth in range(1, 12):
                extra = 'class N0(TypedDict):\n    v: bytes\n' + ''.join('class N%d(TypedDict):\n    n: N%d\n    w: List[int]\n' % (i, i - 1) for i in range(1, depth))

                def f(i):
                    return [[b'v', BYTES, None]] if i == 0 else [[b'n', STRUCT, None, f(i - 1)], [b'w', ARR + INT, None]]
                for form, code in (('N%d', STRUCT), ('List[N%d]', ARR + STRUCT), ('List[List[N%d]]', 2 * ARR + STRUCT)):
                    body = '    @external\n    def m(self, p0: %s): pass\n' % (form % (depth - 1))
                    yield from run.ask(run.source(body, extra=extra), HOOKS + [[0, b'm', 2, 1, [[b'p0', code, None, f(depth - 1)]], []]], u + (depth, form))
            for n in range(0, 21):
                extra = 'class X(TypedDict):\n    pass\n' + ''.join('    g%d: %s\n' % (i, ('int', 'str', 'List[bool]')[i % 3]) for i in range(n))
                want = [[b'g%d' % i, (INT, STR, ARR + BOOL)[i % 3], None] for i in range(n)]
                for nested in (False, True):
                    ex = extra + ('class Y(TypedDict):\n    x: X\n' if nested else '')
                    body = '    @external\n    def m(self, p0: %s): pass\n' % ('Y' if nested else 'X')
                    fl = [[b'x', STRUCT, None, want]] if nested else want
                    yield from run.ask(run.source(body, extra=ex), None if n > 16 else HOOKS + [[0, b'm', 2, 1, [[b'p0', STRUCT, None, fl]], []]], u + ('size', n, nested))
        elif k == 'inherit':
            parent = 'class P(IconScoreBase):\n' + BASE
            for site in range(3):
                for decos, flags in DECOS:
                    for f in FORMS:
                        m = method('m', decos, (f,))
                        e = entry('m', flags, (f,))
                        ev = '    @eventlog(indexed=1)\n    def Ev(self, a: int): pass\n'
                        eve = [2, b'Ev', 0, 1, [[b'a', INT, None]], []]
                        z = method('zz', ['external'], ())
                        ze = entry('zz', 2, ())
                        if site == 0:
                            src = HEAD + parent + m + ev + 'class Score(P):\n' + z
                            exp = [e, eve, ze]
                        elif site == 1:      # overridden without decorators: no longer exposed
                            src = HEAD + parent + m + ev + z + 'class Score(P):\n' + method('m', [], ()) + '    def Ev(self, a): pass\n'
                            exp = [ze]
                        else:                # overridden with another signature
                            src = HEAD + parent + method('m', DECOS[0][0], ()) + ev + z + 'class Score(P):\n' + m
                            exp = [e, eve, ze]
                        yield from run.ask(src, HOOKS + exp, u + (site, flags, f[:2]))
        elif k == 'fallback':
            fb = [1, b'fallback', 4, 0, [], []]
            z = method('zz', ['external'], ())
            ze = entry('zz', 2, ())
            for decos, args, ret, exp in [
                ((), '', None, []), (('payable',), '', None, [fb]), (('payable',), '', 'None', [fb]), (('external',), '', None, None),
                (('payable', 'external'), '', None, None), (('external', 'payable'), '', None, None), (('external(readonly=True)',), '', None, None),
                (('payable',), ', a: int', None, None), (('payable',), ', a: int = 1', None, None), (('payable',), '', 'int', None),
                (('payable',), '', 'str', None), (('payable', 'payable'), '', None, None), (('isolated', 'payable'), '', None, None),
                (('payable',), ', *a', None, None), (('payable',), ', **k', None, None), ((), ', a: float', None, []),
            ]:
                body = ''.join('    @%s\n' % d for d in decos) + '    def fallback(self%s)%s: pass\n' % (args, ' -> ' + ret if ret else '')
                yield from run.ask(run.source(body + z), None if exp is None else HOOKS + exp + [ze], u + (decos, args, ret))
            # the default method alone is not an external method
            yield from run.ask(run.source(z), HOOKS + [ze], u + ('none',))
        elif k == 'default':
            for f in FORMS:
                if f[1]:
                    for n in range(0, 5):
                        fs = (FORMS[0],) * n + (f,) * (4 - n)
                        yield from run.ask(run.source(method('m', ['external'], fs)), HOOKS + [entry('m', 2, fs)], u + (f[:2], n))
        elif k == 'flags':
            decs = ['external', 'external(readonly=True)', 'payable', 'isolated', 'eventlog', 'interface']
            legal = {('external',): 2, ('external(readonly=True)',): 3, ('external', 'payable'): 6, ('payable', 'external'): 6}
            z = method('zz', ['external'], ())
            ze = entry('zz', 2, ())
            for n in (1, 2, 3):
                for c in itertools.product(decs, repeat=n):
                    m = method('m', c, ())
                    if c in legal:
                        exp = HOOKS + [ze, entry('m', legal[c], ())]
                    elif c == ('payable',):
                        exp = HOOKS + [ze]
                    elif c == ('eventlog',):
                        exp = HOOKS + [ze, [2, b'm', 0, 0, [], []]]
                    elif c == ('interface',):
                        exp = HOOKS + [ze]
                    else:
                        exp = None
                    if exp is None and not set(c) & {'external', 'external(readonly=True)', 'payable', 'isolated', 'eventlog'}:
                        exp = None       # interface twice
                    yield from run.ask(run.source(m + z), exp, u + c)
            for body in ('', '    def m(self): pass\n', '    @eventlog\n    def E(self): pass\n'):
                # no external method: refused on every use
                yield from run.ask(run.source(body), None, u + ('no external', body))
        elif k == 'badhint':
            h = BAD_HINTS[u[1]]
            z = method('zz', ['external'], ())
            base = '    def __init__(self, db): super().__init__(db)\n'
            for decos, _ in DECOS:
                for args in ('p: %s', 'a: int, p: %s', 'p: %s, b: str = "x"', 'p: %s = None', 'a: int = 1, p: %s = None', 'p: List[%s]', 'p: Optional[%s]'):
                    if h == 'S17' and False:
                        continue
                    if h in ('1', "''", "'int'", "'str'", "'List[int]'", "'S1'", 'callable') and '[' in args:
                        continue
                    if args.startswith('p: Optional') and h.startswith('Union[int, str'):
                        pass
                    body = ''.join('    @%s\n' % d for d in decos) + '    def m(self, %s): pass\n' % (args % h)
                    yield from run.ask(run.source(body + z), None, u + (h, decos, args))
            for hook in ('on_install', 'on_update'):
                other = 'on_update' if hook == 'on_install' else 'on_install'
                body = base + '    def %s(self, p: %s): pass\n' % (hook, h) + method(other, [], ()) + z
                yield from run.ask(run.source(body, base=''), None, u + (h, hook))
            if h != "'S1'":
                yield from run.ask(run.source(z + '    @eventlog\n    def E(self, p: %s): pass\n' % h), None, u + (h, 'event'))
            # undecorated methods are free to use them
            yield from run.ask(run.source(z + '    def helper(self, p: %s = None): pass\n' % h), HOOKS + [entry('zz', 2, ())], u + (h, 'helper'))
        elif k == 'baddef':
            z = method('zz', ['external'], ())
            for h, d in BAD_DEFAULTS:
                for decos, _ in DECOS:
                    for args in ('p%s = %s', 'a: int, p%s = %s', 'a: int = 1, p%s = %s'):
                        a = args % (': ' + h if h else '', d)
                        body = ''.join('    @%s\n' % x for x in decos) + '    def m(self, %s): pass\n' % a
                        yield from run.ask(run.source(body + z), None, u + (h, d, decos, args))
        elif k == 'badform':
            z = method('zz', ['external'], ())
            for a in ('self, *args', 'self, **kw', 'self, a: int, *args', 'self, *, a: int', 'self, a: int, *, b: str = "x"', 'self, a: int, /',
                      'self, /', 'self, *a: int', 'self, **k: str', 'self, a: int, /, b: int', 'self, *, a: int = 1'):
                for decos, _ in DECOS:
                    body = ''.join('    @%s\n' % x for x in decos) + '    def m(%s): pass\n' % a
                    exp = None
                    if a == 'self, /':
                        # the position of self is not restricted
                        continue
                    yield from run.ask(run.source(body + z), exp, u + (a, decos))
            # broken modules and packages
            for what, src in (('syntax', 'class Score(:\n'), ('empty', ''), ('noclass', 'x = 1\n'), ('raise', 'raise ValueError("x")\n'),
                              ('exit', 'import sys\nsys.exit(0)\n'), ('notscore', 'class Score:\n    pass\n'), ('func', 'def Score(a): return 1\n'),
                              ('noinit', HEAD + 'class Score(IconScoreBase):\n' + method('zz', ['external'], ()) + '    def on_install(self): pass\n    def on_update(self): pass\n'),
                              ('noinstall', HEAD + 'class Score(IconScoreBase):\n    def __init__(self, db): super().__init__(db)\n    def on_update(self): pass\n' + z),
                              ('noupdate', HEAD + 'class Score(IconScoreBase):\n    def __init__(self, db): super().__init__(db)\n    def on_install(self): pass\n' + z)):
                code = ctx.scores.make(src)
                ctx.case(what)
                o = yield GetApi(code)
                ctx.state(what)
                ctx.transitions += 1
                if o.status == 0:
                    ctx.fail('contract %r accepted' % what)
        elif k == 'badevent':
            z = method('zz', ['external'], ())
            for deco, args in [('eventlog(indexed=1)', 'self'), ('eventlog(indexed=2)', 'self, a: int'), ('eventlog(indexed=3)', 'self, a: int, b: int'),
                               ('eventlog(indexed=4)', 'self, a: int, b: int, c: int, d: int'), ('eventlog(indexed=4)', 'self, a: int'),
                               ('eventlog(indexed=5)', 'self, a: int, b: int, c: int, d: int, e: int'), ('eventlog', 'a: int'), ('eventlog', 'this, a: int'),
                               ('eventlog', 'self, a'), ('eventlog', 'self, a: int, b'), ('eventlog(indexed=1)', 'self, a'), ('eventlog', 'self, a=1'),
                               ('eventlog', 'self, a: List[int]'), ('eventlog', 'self, a: S1'), ('eventlog', 'self, a: dict'), ('eventlog', 'self, *a: int'),
                               ('eventlog', 'self, a: int, **k: int'), ('eventlog', 'self, a: Optional[int]'), ('eventlog', "self, a: 'int'"), ('eventlog', 'self, a: None'),
                               ('eventlog', "self, a: int = 'x'"), ('eventlog', 'self, a: bool = 1'), ('eventlog', 'self, a: int = True'), ('eventlog', 'self, *, a: int')]:
                for other in ('', '    @eventlog(indexed=3)\n    def Ok(self, a: int, b: str, c: bytes): pass\n'):
                    body = '    @%s\n    def E(%s): pass\n' % (deco, args)
                    yield from run.ask(run.source(other + body + z), None, u + (deco, args, bool(other)))
        elif k == 'sequence':
            # what one contract declares never shows in the API of another, in any order, on repetition or between calls
            good = [(method('a', ['external'], (FORMS[0],)), [entry('a', 2, (FORMS[0],))]),
                    (method('a', ['external(readonly=True)'], (FORMS[1],), 'int') + method('b', ['payable', 'external'], ()),
                     [entry('a', 3, (FORMS[1],), [INT]), entry('b', 6, ())]),
                    ('    @eventlog\n    def a(self): pass\n' + method('c', ['external'], (FORMS[11],)), [[2, b'a', 0, 0, [], []], entry('c', 2, (FORMS[11],))]),
                    (method('a', ['external'], (('float', None, 0, None, None),)), None)]
            codes = [ctx.scores.make(run.source(b)) for b, _ in good]
            for seq in itertools.product(range(4), repeat=5 if T else 4):
                for i in seq:
                    ctx.case((u, seq))
                    o = yield GetApi(codes[i])
                    ctx.transitions += 1
                    ctx.state(seq, i)
                    e = good[i][1]
                    if e is None:
                        if o.status == 0:
                            ctx.fail('illegal contract accepted in sequence %r' % (seq,))
                    elif o.status or sorted(o.data, key=canon) != sorted(HOOKS + e, key=canon):
                        ctx.fail('sequence %r: wrong API for contract %d: %r' % (seq, i, o.data))
                    if seq[0] % 2:
                        yield Invoke(Contract(A1, codes[i]), 'a', [1], costs=FREE)
    run_engine(driver)
