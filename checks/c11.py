"""C11: keyword arguments are converted by the declared parameter types.

Contracts with parameters of every declared type are called through the real engine with arguments by name; what the
method observes is compared with a conversion written from the statement. Values whose standing the statement leaves
open (digit separators, surrounding blanks, a plus sign, 0X) are not part of the menus.
"""
import itertools

from mc import wire as W
from mc.common import A1, A2, A3
from mc.node import run_engine, Invoke, Contract

TECHNIQUE = 'model checking: exhaustive enumeration of named/positional argument assignments over bounded menus on the real engine, against an independent conversion'
BOUNDS = dict(
    quick='11 declared types x 6 kinds of method x menus of 20-35 values; all 6^3 type triples x 5^3 assignments x unknown-argument; all positional lists of <=4 over 6 values; all call sequences of <=3 over 14 calls to same-named methods of different types',
    thorough='the same with full menus in every pair of parameters, sequences of <=4')

SRC = '''
import c11host
from typing import List, Dict, Union, Optional
from typing_extensions import TypedDict
from iconservice import IconScoreBase, external, payable, eventlog, Address
class S1(TypedDict):
    x: int
def hit(name, *a):
    c11host.hits.append((name, a))
class Base(IconScoreBase):
%(base)s
class Score(Base):
    def __init__(self, db): super().__init__(db)
%(body)s
'''
HOOKS = '''    def on_install(self): hit('on_install')
    def on_update(self): hit('on_update')
'''
FAIL = ('FAIL',)
AE, AC = W.addr(0, 0xabc), W.addr(1, 0xdef)
BIG = (1 << 256) + 5

INTS = [('0', 0), ('1', 1), ('-1', -1), ('10', 10), ('007', 7), ('0x0', 0), ('0x10', 16), ('0xff', 255), ('0xFF', 255), ('0x00ff', 255), ('-0x1', -1), ('-0xa', -10),
        (str(BIG), BIG), (hex(BIG), BIG), (hex(-BIG), -BIG), ('-129', -129)]
BADINTS = ['', '-', '0x', '-0x', '0xg', '1.5', '1e3', 'abc', 'ff', '--1', '0x-1', '0b1', '0o7', '1 2', 'True', 'null', 'None', '0x0x1', '1,000', '\0', '1\0', AE.text, '0x1.0', '[1]', '1a']
MENU = {
    'int': INTS + [(t, FAIL) for t in BADINTS],
    'bool': [('0', False), ('1', True), ('0x0', False), ('0x1', True), ('2', True), ('-1', True), ('00', False), ('0x00', False), ('-0x0', False), ('0x10', True)]
            + [(t, FAIL) for t in ['', 'true', 'True', 'false', 'False', 'yes', 'no', '0x', 'x', '0.0', 'None', 'on']],
    'bytes': [('', b''), ('0x', b''), ('00', b'\0'), ('0x00', b'\0'), ('abcd', b'\xab\xcd'), ('ABCD', b'\xab\xcd'), ('0xABcd', b'\xab\xcd'), ('0x' + 'ff' * 300, b'\xff' * 300), ('10', b'\x10')]
             + [(t, FAIL) for t in ['0', '0x0', '0xg0', 'gg', '0xabc', '-0x00', '0x0x00', 'None', '00-11', '0x,', AE.text, '\0\0']],
    'str': [(t, t) for t in ['', 'a', '0', '0x1', 'True', '\0', '\u00e9\U0001f600', ' x ', AE.text, 'None', 'x' * 3000, '{}', '[]', '\n']],
    'Address': [(AE.text, AE), (AC.text, AC), ('hx' + '0' * 40, W.Addr(0, bytes(20))), ('cx' + 'f' * 40, W.Addr(1, b'\xff' * 20))]
               + [(t, FAIL) for t in ['', 'hx', 'cx', AE.text[:-1], AE.text + '0', AE.text.upper(), 'Hx' + AE.text[2:], 'ax' + AE.text[2:], '0x' + AE.text[2:], AE.text[2:], AE.text[:-3] + 'ABC',
                                      AE.text[:-1] + 'g', AE.text[:-1] + ' ', ' ' + AE.text[:-1], 'hx-' + AE.text[3:], 'hx0x' + AE.text[4:], 'hx' + '00' * 19, 'hx' + '00' * 21, AE.raw.hex()]],
}
MENU['untyped'] = MENU['str']
NONTEXT = [5, True, [], ['1'], {}, {'x': '1'}, AE]
TYPES = {   # source of the hint -> menu
    'int': 'int', 'bool': 'bool', 'bytes': 'bytes', 'str': 'str', 'Address': 'Address', None: 'untyped', 'Optional[int]': 'int',
    'Optional[Address]': 'Address', "'Address'": 'Address', 'Union[bytes, None]': 'bytes', 'Optional[bool]': 'bool', 'Optional[str]': 'str',
}
KINDS = ['external', 'readonly', 'payable', 'on_install', 'on_update', 'inherited', 'overriding']
NULL = None
OMIT = ('OMIT',)
DEF = {'int': ('-7', -7), 'bool': ('True', True), 'bytes': ("b'dd'", b'dd'), 'str': ("'dd'", 'dd'), 'Address': ('None', None), 'untyped': ("'du'", 'du')}


def hint(p, h, d=None):
    return p + (': ' + h if h else '') + (' = ' + d if d else '')


def method(name, deco, params, names):
    return ''.join('    @%s\n' % d for d in deco) + '    def %s(self, %s):\n        hit(%r%s)\n' % (
        name, ', '.join(params), name, ''.join(', ' + n for n in names))


def build(kind, h):
    """(source, method name) of a contract with one method taking x of the type."""
    p = [hint('x', h)]
    deco = {'external': ['external'], 'readonly': ['external(readonly=True)'], 'payable': ['payable', 'external'], 'inherited': ['external'],
            'overriding': ['external'], 'on_install': [], 'on_update': []}[kind]
    if kind == 'readonly':
        src = '    @external(readonly=True)\n    def m(self, %s) -> int:\n        hit("m", x)\n' % p[0]
        return SRC % dict(base='    pass', body=HOOKS + src), 'm'
    if kind in ('on_install', 'on_update'):
        other = 'on_update' if kind == 'on_install' else 'on_install'
        return SRC % dict(base='    pass', body=method(kind, deco, p, ['x']) + '    def %s(self): pass\n    @external\n    def ext(self): pass\n' % other), kind
    m = method('m', deco, p, ['x'])
    if kind == 'inherited':
        return SRC % dict(base=m, body=HOOKS), 'm'
    if kind == 'overriding':
        o = method('m', deco, ['x: ' + ('str' if h and 'str' not in h else 'int')], ['x'])
        return SRC % dict(base=o, body=HOOKS + m), 'm'
    return SRC % dict(base='    pass', body=HOOKS + m), 'm'


SIX = ['int', 'bool', 'bytes', 'str', 'Address', None]
PICK = {   # two good, one bad
    'int': ['12', '-0x3', 'zz'], 'bool': ['0x1', '0', 'true'], 'bytes': ['0xabcd', '', '0xabc'], 'str': ['a b', '0x1', None], 'Address': [AE.text, AC.text, AE.text[:-1]],
    None: ['u', '12', None]}


def conv(h, text):
    for t, v in MENU[TYPES[h]]:
        if t == text:
            return v
    return CONV[TYPES[h], text]


CONV = {('int', '12'): 12, ('int', '-0x3'): -3, ('int', 'zz'): FAIL, ('bytes', '0xabcd'): b'\xab\xcd', ('str', 'a b'): 'a b', ('untyped', 'u'): 'u', ('untyped', '12'): '12',
        ('str', '12'): '12', ('bytes', '12'): b'\x12', ('bool', '12'): True, ('int', 'ab'): FAIL, ('bytes', 'ab'): b'\xab', ('str', 'ab'): 'ab', ('bool', 'ab'): FAIL,
        ('Address', '12'): FAIL, ('Address', 'ab'): FAIL, ('untyped', 'ab'): 'ab', ('bytes', AE.text): FAIL, ('bool', AE.text): FAIL}


def units(tier):
    u = [('single', k, h) for k in KINDS for h in TYPES]
    u += [('multi', a, b) for a in SIX for b in SIX]
    u += [('pos', n) for n in range(3)]
    u += [('seq', i) for i in range(len(SEQ))]
    if tier == 'thorough':
        u += [('pair', a, b) for a in SIX for b in SIX]
    return u


# calls to same-named parameters and methods of different types
SEQ = [(c, m, t) for c in (0, 1) for m, ts in (('m', ('12', 'ab')), ('n', ('12', 'ab'))) for t in ts] + \
      [(2, 'm', '12'), (2, 'n', AE.text), (2, 'm', AE.text), (0, 'm', OMIT), (1, 'm', OMIT), (2, 'n', '12')]
SEQT = [dict(m='int', n='str'), dict(m='str', n='int'), dict(m='bytes', n='Address')]


def unit(u, ctx):
    import sys
    import types
    from mc.common import from_py
    h = types.ModuleType('c11host')
    h.hits = []
    sys.modules['c11host'] = h

    def run(desc, inv, exp, name):
        """exp: list of argument values the method must see, or FAIL"""
        ctx.case(desc)
        h.hits.clear()
        o = yield inv
        got = [(n, [from_py(x) for x in a]) for n, a in h.hits]
        if exp is FAIL:
            if got or o.status == 0:
                ctx.fail('%r: must fail without running, gives status %d, ran with %r' % (desc, o.status, got))
        else:
            if o.status != 0 or len(got) != 1 or got[0][0] != name or not W.same(list(got[0][1]), list(exp)):
                ctx.fail('%r: the method must see %r, gives status %d (%r), ran with %r' % (desc, exp, o.status, o.result, got))
        ctx.transitions += 1
        ctx.state(desc)
        ctx.outcome(exp if exp is FAIL else [repr(x) for x in exp], o.status)

    def single(c, name, kind, ht):
        menu = MENU[TYPES[ht]]
        for t, v in menu:
            yield from run((kind, ht, t), Invoke(c, name, {'x': t}), FAIL if v is FAIL else [v], name)
        yield from run((kind, ht, None), Invoke(c, name, {'x': None}), [None], name)
        yield from run((kind, ht, 'missing'), Invoke(c, name, {}), FAIL, name)
        for k in ('y', 'X', 'x ', '', 'self', 'return', '.', 'cls', 'func_name', 'args'):
            t, v = menu[0]
            yield from run((kind, ht, 'unknown', k), Invoke(c, name, {'x': t, k: t}), FAIL, name)
            yield from run((kind, ht, 'instead', k), Invoke(c, name, {k: t}), FAIL, name)
        if ht is not None:
            for x in NONTEXT:
                yield from run((kind, ht, 'nontext', repr(x)), Invoke(c, name, {'x': x}), FAIL, name)
        for x in (None, 5, 'x', b'\0', AE, True, [1, 'a'], {'k': 1}):
            yield from run((kind, ht, 'positional', repr(x)), Invoke(c, name, [x]), [x], name)
        for bad in ([], [1, 2], [None, None]):
            yield from run((kind, ht, 'positional', bad), Invoke(c, name, bad), FAIL, name)

    def assign(hs, vals, defaults):
        r = []
        bad = False
        for ht, v, d in zip(hs, vals, defaults):
            if v is OMIT:
                if d is None:
                    bad = True
                else:
                    r.append(d[1])
            elif v is None:
                r.append(None)
            else:
                x = conv(ht, v)
                if x is FAIL:
                    bad = True
                r.append(x)
        return FAIL if bad else r

    def driver(node):
        k = u[0]
        if k == 'single':
            src, name = build(u[1], u[2])
            c = Contract(A1, ctx.scores.make(src), order={})
            yield from single(c, name, u[1], u[2])
        elif k == 'multi':
            for third in SIX:
                hs = [u[1], u[2], third]
                ds = [None, DEF[TYPES[u[2]]], DEF[TYPES[third]]]
                names = ['a', 'b', 'c']
                body = method('m', ['external'], [hint(n, x, d and d[0]) for n, x, d in zip(names, hs, ds)], names)
                c = Contract(A1, ctx.scores.make(SRC % dict(base='    pass', body=HOOKS + body)), order={})
                opts = [[x for x in PICK[t] if x is not None] + [None, OMIT] for t in hs]
                for vals in itertools.product(*opts):
                    for extra in (False, True):
                        p = {n: v for n, v in zip(names, vals) if v is not OMIT}
                        if extra:
                            p['d'] = '1'
                        exp = FAIL if extra else assign(hs, vals, ds)
                        for order in (1, -1):
                            yield from run((hs, vals, extra, order), Invoke(c, 'm', dict(list(p.items())[::order])), exp, 'm')
        elif k == 'pair':
            hs = [u[1], u[2]]
            body = method('m', ['external'], [hint('a', u[1]), hint('b', u[2])], ['a', 'b'])
            c = Contract(A1, ctx.scores.make(SRC % dict(base='    pass', body=HOOKS + body)), order={})
            for (t1, v1), (t2, v2) in itertools.product(MENU[TYPES[u[1]]], MENU[TYPES[u[2]]]):
                exp = FAIL if FAIL in (v1, v2) else [v1, v2]
                yield from run((hs, t1, t2), Invoke(c, 'm', {'a': t1, 'b': t2}), exp, 'm')
        elif k == 'pos':
            nreq = u[1]
            names = ['a', 'b', 'c']
            hs = ['int', 'Address', None]
            ds = [None if i < nreq else DEF[TYPES[hs[i]]] for i in range(3)]
            body = method('m', ['external'], [hint(n, x, d and d[0]) for n, x, d in zip(names, hs, ds)], names)
            c = Contract(A1, ctx.scores.make(SRC % dict(base='    pass', body=HOOKS + body)), order={})
            for n in range(5):
                for vals in itertools.product((0, '12', b'12', AE, None, [1]), repeat=n):
                    exp = list(vals) + [d and d[1] for d in ds[n:]] if nreq <= n <= 3 else FAIL
                    yield from run(('positional', nreq, repr(vals)), Invoke(c, 'm', list(vals)), exp, 'm')
        elif k == 'seq':
            cs = []
            for i, ts in enumerate(SEQT):
                body = method('m', ['external'], [hint('x', ts['m'], DEF[ts['m']][0])], ['x']) + method('n', ['external'], [hint('x', ts['n'])], ['x'])
                cs.append(Contract((A1, A2, A3)[i], ctx.scores.make(SRC % dict(base='    pass', body=HOOKS + body)), order={}))
            for n in range(0, 4 if ctx.tier == 'thorough' else 3):
                for rest in itertools.product(SEQ, repeat=n):
                    s = (SEQ[u[1]],) + rest
                    for j, (ci, m, t) in enumerate(s):
                        ty = SEQT[ci][m]
                        exp = [DEF[ty][1]] if t is OMIT else conv(ty, t)
                        if exp is not FAIL and t is not OMIT:
                            exp = [exp]
                        yield from run((s, j), Invoke(cs[ci], m, {} if t is OMIT else {'x': t}), exp, m)
    run_engine(driver)
    ctx.sample(dict(unit=repr(u)))
