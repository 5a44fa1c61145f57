"""C09: only exposed methods are callable and value needs a payable method.

For contracts covering every decorator combination and way of defining a method, every attribute name reachable on the
instance, every name in the class hierarchy and a set of absent/odd names is called with and without value, by position
and by keyword, read-only and not, on the real engine. Every method body reports that it ran.
"""
import itertools

from mc import host as H, wire as W
from mc.common import A1, A2, EOA1, ST, to_py
from mc.node import run_engine, Invoke, Contract, FREE, DEFAULT_COSTS_V1

TECHNIQUE = 'model checking: exhaustive enumeration of contracts x names x value x parameter form x history on the real engine, against the declared exposure'
BOUNDS = dict(
    quick='12 hand-written contracts and all decorator combinations of <=2 of 4 decorators (x 3 definition sites); all instance attribute names plus 60 absent/odd names; value {0,1,2^70}; parameters as empty list and empty map; read-only flag; all ordered pairs of calls over 16 names; API request before/after; log levels',
    thorough='all ordered triples of calls over 16 names; nested calls for every name')

HEAD = '''
import mchost
from functools import wraps
from iconservice import *
from iconservice import IconScoreBase, InterfaceScore, external, payable, eventlog, interface, isolated
def hit(n):
    mchost.hits.append(n)
'''
BASIC = '''
    def __init__(self, db): super().__init__(db)
    def on_install(self): hit('on_install')
    def on_update(self): hit('on_update')
'''
# source, {callable name: payable}
CONTRACTS = {}


def contract(name, src, **exposed):
    exposed.setdefault('on_install', False)
    exposed.setdefault('on_update', False)
    CONTRACTS[name] = (HEAD + src, exposed)


contract('plain', '''
class Score(IconScoreBase):''' + BASIC + '''
    @external
    def ext(self): hit('ext')
    @external(readonly=True)
    def view(self): hit('view')
    @payable
    @external
    def pay(self): hit('pay')
    @external
    @payable
    def pay2(self): hit('pay2')
    @payable
    def payonly(self): hit('payonly')
    @payable
    def fallback(self): hit('fallback')
    @eventlog
    def Ev(self, a: int = 1): hit('Ev')
    def helper(self): hit('helper')
    def _private(self): hit('_private')
    def __mangled(self): hit('__mangled')
    @property
    def prop(self): hit('prop')
    @staticmethod
    def stat(): hit('stat')
    @classmethod
    def clsm(cls): hit('clsm')
    lam = lambda self: hit('lam')
    class inner:
        def __init__(self): hit('inner')
        def __call__(self): hit('inner')
    obj = type('O', (), {'__call__': lambda s, *a: hit('obj')})()
''', ext=False, view=False, pay=True, pay2=True, fallback=True)

contract('nofallback', '''
class Score(IconScoreBase):''' + BASIC + '''
    @external
    def ext(self): hit('ext')
    def fallback(self): hit('fallback')
''', ext=False)

contract('deffallback', '''
class Score(IconScoreBase):''' + BASIC + '''
    @external
    def ext(self): hit('ext')
''', ext=False)

contract('inherit', '''
class Base(IconScoreBase):''' + BASIC + '''
    @external
    def ext(self): hit('base ext')
    @external
    def over(self): hit('base over')
    @payable
    @external
    def pay(self): hit('base pay')
    @payable
    @external
    def payover(self): hit('base payover')
    @payable
    def fallback(self): hit('base fallback')
    def up(self): hit('base up')
class Mixin:
    @external
    def mixed(self): hit('mixed')
    def mixhelper(self): hit('mixhelper')
class Score(Base, Mixin):
    def __init__(self, db): super().__init__(db)
    def over(self): hit('over')
    def payover(self): hit('payover')
    @external
    def up(self): hit('up')
    def fallback(self): hit('fallback')
    def on_install(self): hit('on_install')
''', ext=False, pay=True, mixed=False, up=False)

contract('keepfallback', '''
class Base(IconScoreBase):''' + BASIC + '''
    @external
    def ext(self): hit('ext')
    @payable
    def fallback(self): hit('fallback')
class Score(Base):
    pass
''', ext=False, fallback=True)

contract('instattrs', '''
class Score(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self.run = lambda *a: hit('run')
        self.fn = self.helper
        self.__dict__['on_x'] = self.ext
    def on_install(self): hit('on_install')
    def on_update(self): hit('on_update')
    @external
    def ext(self): hit('ext')
    def helper(self): hit('helper')
''', ext=False)

contract('getattr', '''
class Score(IconScoreBase):''' + BASIC + '''
    @external
    def ext(self): hit('ext')
    def __getattr__(self, name):
        if not name.startswith('__'):
            hit('getattr')
        raise AttributeError(name)
    def __call__(self, *a): hit('call')
''', ext=False)

contract('wrapped', '''
def deco(f):
    @wraps(f)
    def g(self, *a):
        return f(self, *a)
    return g
def plaindeco(f):
    def g(self, *a):
        return f(self, *a)
    return g
class Score(IconScoreBase):''' + BASIC + '''
    @external
    def ext(self): hit('ext')
    @external
    @deco
    def wrapped(self): hit('wrapped')
    @plaindeco
    def hidden(self): hit('hidden')
''', ext=False, wrapped=False)

contract('names', '''
class Score(IconScoreBase):''' + BASIC + '''
    @external
    def Ext(self): hit('Ext')
    @external
    def _under(self): hit('_under')
    @external
    def fallback_(self): hit('fallback_')
    @external
    def \u00e9t\u00e9(self): hit('\u00e9t\u00e9')
    @payable
    @external
    def on_install_(self): hit('on_install_')
    def ext(self): hit('ext')
    @external
    def call(self): hit('call')
''', Ext=False, _under=False, fallback_=False, **{'\u00e9t\u00e9': False, 'on_install_': True, 'call': False})

contract('iface', '''
class I(InterfaceScore):
    @interface
    def ext(self): pass
class Score(IconScoreBase):''' + BASIC + '''
    @external
    def run(self): hit('run')
    @interface
    def remote(self): hit('remote')
''', run=False)

ODD = ['', ' ', 'ext ', ' ext', 'EXT', 'ex', 'extt', 'ext()', 'ext\0', 'fallback ', 'Fallback', 'on_Install', 'onInstall', '__init__',
       '__call__', '__class__', '__del__', '__dict__', '__new__', '__getattribute__', '__setattr__', '__repr__', '_IconScoreBase__call',
       '_IconScoreBase__get_api', '_IconScoreBase__check_payable', '_IconScoreBase__db', '_Score__mangled', '__mangled', 'db', 'icx', 'msg', 'tx',
       'block', 'owner', 'address', 'now', 'call', 'revert', 'get_owner', 'create_interface_score', 'validate', 'set_fee_sharing_proportion',
       'get_fee_sharing_proportion', 'block_height', '_context', 'Ev', 'Ev(int)', 'genericCall', 'None', '0', 'self', 'None', '.', '*', 'a.b',
       'ext.__call__', 'x' * 1000, '\u00e9', 'e\u0301te\u0301', 'ext\n', 'main', 'Score', '__score_flag', 'getattr']
CORE = ['ext', 'view', 'pay', 'payonly', 'fallback', 'Ev', 'helper', '_private', 'prop', 'stat', 'clsm', 'on_install', 'on_update', 'lam', 'nope', '__init__']


def combos():
    """(source lines of decorators, exposed?, payable?) for method `m`; None: the contract must be refused."""
    decs = ['external', 'external(readonly=True)', 'payable', 'isolated']
    for n in (0, 1, 2):
        for c in itertools.permutations(decs, n):
            names = set(c)
            ext = any(x.startswith('external') for x in c)
            if 'isolated' in c or sum(x.startswith('external') for x in c) > 1 or names == {'external(readonly=True)', 'payable'}:
                yield c, None, None
            else:
                yield c, ext, 'payable' in c


SITES = {
    'class': '''
class Score(IconScoreBase):''' + BASIC + '''
    @external
    def base(self): hit('base')
%s''',
    'parent': '''
class P(IconScoreBase):''' + BASIC + '''
    @external
    def base(self): hit('base')
%s
class Score(P):
    pass
''',
    'mixin': '''
class M:
%s
class Score(M, IconScoreBase):''' + BASIC + '''
    @external
    def base(self): hit('base')
''',
}


def units(tier):
    u = [('names', n) for n in CONTRACTS]
    u += [('combo', s) for s in SITES]
    u += [('pairs', i) for i in range(len(CORE))]
    u += [('nested',)]
    return u


def expected(exposed, name, value):
    if name not in exposed:
        return ST['METHOD']
    if value > 0 and not exposed[name]:
        return ST['NOTPAYABLE']
    return 0


def unit(u, ctx):
    h = H.install()
    h.hits = []

    def probe(node, c, exposed, name, value, params, ro, what=''):
        h.hits.clear()
        node.stores, node.balances = {A1: {}, A2: {}}, {A1: 0}
        ctx.case((what, name, value, params, ro))
        o = yield Invoke(c, name, params, value=value, readonly=ro, costs=FREE)
        st = expected(exposed, name, value)
        # overridden bodies report their own name, inherited ones are marked with the class
        ran = [x for x in h.hits]
        ctx.transitions += 1
        ctx.state(what, name, value, repr(params), ro)
        ctx.outcome(o.status, tuple(ran))
        if o.status != st:
            ctx.fail('%s.%r value %d params %r: status %d (%r), expected %d' % (what, name, value, params, o.status, o.result, st))
        if st and ran:
            ctx.fail('%s.%r: refused call ran contract code %r' % (what, name, ran))
        if not st and (len(ran) != 1 or ran[0].replace('base ', '') != name):
            ctx.fail('%s.%r: call ran %r' % (what, name, ran))

    def names_of(exposed, score):
        return sorted(set(dir(score)) | set(exposed) | set(ODD))

    if u[0] == 'names':
        src, exposed = CONTRACTS[u[1]]
        code = ctx.scores.make(src.replace('from iconservice import *\n', ''))

        def driver(node):
            c = Contract(A1, code)
            node.contracts[A1] = c
            # the attributes of an instance of the contract, collected by the contract itself
            got = []
            h.names = got
            yield from probe(node, c, exposed, next(n for n in exposed if n not in ('on_install', 'on_update')), 0, [], False, u[1])
            import sys
            cls = next(m.Score for m in list(sys.modules.values()) if getattr(getattr(m, 'Score', None), '__module__', None) == getattr(m, '__name__', 1)
                       and str(getattr(m, '__file__', '')).startswith(code))
            names = names_of(exposed, cls)
            for rnd in range(2):
                for name in (names if rnd == 0 else reversed(names)):
                    for value in (0, 1, 1 << 70):
                        for params in ([], {}):
                            for ro in (False, True):
                                yield from probe(node, c, exposed, name, value, params, ro, u[1])
            ctx.sample(dict(contract=u[1], names=len(names)))
        run_engine(driver)
    elif u[0] == 'combo':
        def driver(node):
            k = 0
            for decs, ext, pay in combos():
                for name in ('m', 'fallback'):
                    body = ''.join('    @%s\n' % d for d in decs) + '    def %s(self): hit(%r)\n' % (name, name)
                    code = ctx.scores.make((HEAD + SITES[u[1]] % body).replace('from iconservice import *\n', ''))
                    c = Contract(A1, code)
                    refused = ext is None
                    exposed = dict(base=False, on_install=False, on_update=False)
                    if name == 'fallback':
                        refused = refused or ext
                        if pay:
                            exposed['fallback'] = True
                    elif ext:
                        exposed['m'] = pay
                    for n in ('base', 'm', 'fallback', 'on_install', 'nope', 'base'):
                        for value in (0, 1):
                            for params in ([], {}):
                                what = '%s:%s:%s' % (u[1], '+'.join(decs), name)
                                if refused:
                                    h.hits.clear()
                                    ctx.case((what, n, value, params))
                                    o = yield Invoke(c, n, params, value=value, costs=FREE)
                                    ctx.state(what, n, value, repr(params))
                                    ctx.transitions += 1
                                    if o.status == 0 or h.hits:
                                        ctx.fail('%s: contract with illegal decorators executed %r: status %d' % (what, n, o.status))
                                else:
                                    yield from probe(node, c, exposed, n, value, params, False, what)
        run_engine(driver)
    elif u[0] == 'pairs':
        src, exposed = CONTRACTS['plain']
        code = ctx.scores.make(src.replace('from iconservice import *\n', ''))

        def driver(node):
            c = Contract(A1, code)
            n = 3 if ctx.tier == 'thorough' else 2
            for rest in itertools.product(CORE, repeat=n - 1):
                for values in itertools.product((0, 1), repeat=n):
                    for name, v in zip((CORE[u[1]],) + rest, values):
                        yield from probe(node, c, exposed, name, v, [], False, 'plain')
        run_engine(driver)
    elif u[0] == 'nested':
        # called by another contract, through every calling style
        src, exposed = CONTRACTS['plain']
        code = ctx.scores.make(src.replace('from iconservice import *\n', ''))
        from mc.common import Host, attempt
        hst = Host(ctx)
        hst.h.hits = h.hits = []

        def driver(node):
            names = sorted(set(ODD) | set(CORE) | set(exposed))
            for name in names:
                for value in (0, 1):
                    for depth in (1, 2):
                        got = []

                        def leaf(s):
                            got.append(attempt(s.call, to_py(A2), name, {}, value))

                        def outer(s):
                            s.call(to_py(A1), 'run', {'i': 2})
                        hst.prog(2, leaf)
                        hst.h.hits.clear()
                        node.contracts = {A1: hst.contracts[A1], A2: Contract(A2, code)}
                        node.stores, node.balances = {A1: {}, A2: {}}, {A1: 100}
                        ctx.case(('nested', name, value, depth))
                        yield hst.inv(leaf if depth == 1 else outer)
                        # an empty or the default name means the default method, which takes what it is sent
                        nm = name or 'fallback'
                        st = expected(exposed, nm, value)
                        r = 0 if got[0][0] == 'ok' else got[0][1]
                        ctx.state('nested', name, value, depth)
                        ctx.transitions += 1
                        if r != st or (hst.h.hits != ([] if st else [nm])):
                            ctx.fail('call of %r with value %d from a contract: status %d, ran %r, expected %d' % (name, value, r, hst.h.hits, st))
        run_engine(driver)
