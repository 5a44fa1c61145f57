"""C18: a contract instance is fresh per call and bound to its code and address.

Histories of invoke and API requests over packages with identical file names, several addresses, broken packages and
packages that appear or are completed in between run on the real engine; each reply is compared with a model in which a
call is a function of (package content, address, owner, storage of the address).
"""
import itertools
import json
import os
import shutil

from mc import wire as W
from mc.common import A1, A2, A3, to_py
from mc.node import run_engine, GetApi, Invoke, Contract

TECHNIQUE = 'model checking: exhaustive enumeration of request histories over packages and addresses on the real engine, compared with a model of package, address and storage'
BOUNDS = dict(
    quick='all histories of <=3 over 17 operations (3 packages x 3 addresses, API requests, missing and late packages); 50 defects of packages x 2 requests x repair x neighbours; all call trees of depth <=3 over 6 (package, address) pairs; 24 ways of leaving state behind x 3 follow-ups',
    thorough='all histories of <=4, call trees of depth <=4')

LIB = 'TAG = %r\ndef tag():\n    return TAG\n'
MAIN = '''
import c18host
from iconservice import *
from .lib import tag
from . import lib
class %(other)s(IconScoreBase):
    def __init__(self, db): super().__init__(db)
    def on_install(self): pass
    def on_update(self): pass
    @external
    def run(self): return 'wrong class'
class %(cls)s(IconScoreBase):
    def __init__(self, db):
        c18host.created.append(self)
        super().__init__(db)
        self.n = 0
        self._v = VarDB('v', db, int)
    def on_install(self): pass
    def on_update(self): pass
    @external
    def run(self):
        self.n += 1
        v = self._v.get() + 1
        self._v.set(v)
        r = [tag(), lib.TAG, %(tag)r, self.address, self.owner, self.n, v]
        if c18host.hook:
            c18host.hook(self)
        r.append(self.n)
        r.append(self._v.get())
        return r
    @external(readonly=True)
    def only_%(tag)s(self) -> int: return 1
'''
S = [A1, A2, A3]


def pkg(tag, cls='Score', other='Other', module='main'):
    files = {'lib.py': LIB % tag, module + '.py': MAIN % dict(tag=tag, cls=cls, other=other)}
    if '/' in module:
        d = module.split('/')[0]
        files = {d + '/lib.py': LIB % tag, module + '.py': MAIN % dict(tag=tag, cls=cls, other=other), 'lib.py': LIB % 'outer', 'main.py': MAIN % dict(tag='outer', cls=cls, other=other)}
    files['package.json'] = json.dumps({'version': '0.0.1', 'main_module': module.replace('/', '.'), 'main_score': cls})
    return files


PKG = dict(X=pkg('X'), Y=pkg('Y', 'Other', 'Score'), Z=pkg('Z', module='sub/main'))
PKG['L'] = pkg('L')

OPS = [('i', 'X', 0), ('i', 'X', 1), ('i', 'Y', 0), ('i', 'Y', 2), ('i', 'Z', 1), ('i', 'Z', 0), ('g', 'X'), ('g', 'Y'), ('g', 'Z'), ('i', 'L', 0), ('i', 'L', 2), ('g', 'L'), ('appear', 'L'),
       ('bad',), ('fail', 'X', 0), ('fail', 'Y', 1), ('ro', 'X', 0)]


def put(root, files):
    for f, t in files.items():
        p = os.path.join(root, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if t is None:
            if os.path.exists(p):
                os.unlink(p)
        else:
            with open(p, 'w') as h:
                h.write(t)


def desc(**k):
    d = {'version': '0.0.1', 'main_module': 'main', 'main_score': 'Score'}
    for a, b in k.items():
        if b is None:
            d.pop(a)
        else:
            d[a] = b
    return json.dumps(d)


DEFECTS = {     # files that replace or remove (None) those of a good package
    'no dir': 'no dir', 'empty dir': 'empty dir', 'no package.json': {'package.json': None}, 'empty package.json': {'package.json': ''}, 'not json': {'package.json': '{'}, 'list': {'package.json': '[]'},
    'null': {'package.json': 'null'}, 'string': {'package.json': '"main"'}, 'no keys': {'package.json': '{}'}, 'no main_module': {'package.json': desc(main_module=None)}, 'no main_score': {'package.json': desc(main_score=None)},
    'module number': {'package.json': desc(main_module=5)}, 'score number': {'package.json': desc(main_score=5)}, 'score list': {'package.json': desc(main_score=['Score'])}, 'score empty': {'package.json': desc(main_score='')},
    'relative module': {'package.json': desc(main_module='.main')}, 'relative module 2': {'package.json': desc(main_module='..main')}, 'unknown module': {'package.json': desc(main_module='mian')},
    'unknown sub': {'package.json': desc(main_module='main.sub')}, 'unknown dir': {'package.json': desc(main_module='sub.main')}, 'slash': {'package.json': desc(main_module='./main')}, 'py': {'package.json': desc(main_module='main.py')},
    'unknown score': {'package.json': desc(main_score='Scoer')}, 'function as score': {'package.json': desc(main_score='tag')}, 'module as score': {'package.json': desc(main_score='lib')}, 'base as score': {'package.json': desc(main_score='IconScoreBase')},
    'other class': {'package.json': desc(main_score='Address')}, 'binary': {'package.json': '\0\1'}, 'no main': {'main.py': None}, 'no lib': {'lib.py': None}, 'syntax': {'main.py': 'x = (\n'}, 'empty main': {'main.py': ''},
    'lib syntax': {'lib.py': 'def\n'}, 'lib without name': {'lib.py': 'x = 1\n'}, 'raises': {'main.py': 'raise ValueError("x")\n'}, 'late raise': {'main.py': PKG['X']['main.py'] + 'raise KeyError(1)\n'}, 'exits': {'main.py': 'raise SystemExit(1)\n'},
    'exits 0': {'main.py': 'import sys\nsys.exit()\n'}, 'interrupt': {'main.py': 'raise KeyboardInterrupt()\n'}, 'generator exit': {'main.py': 'raise GeneratorExit()\n'}, 'unknown import': {'main.py': 'import nothing_here\n'}, 'unknown name': {'main.py': 'from iconservice import Nothing\n'},
    'recursion': {'main.py': 'def f(): return f()\nf()\n'}, 'own init': {'__init__.py': 'raise ValueError()\n'}, 'lib raises': {'lib.py': 'raise RuntimeError("lib")\n'}, 'init raises': {'main.py': PKG['X']['main.py'].replace('self.n = 0', 'raise ValueError(1)')},
    'init args': {'main.py': PKG['X']['main.py'].replace('def __init__(self, db):\n        c18', 'def __init__(self):\n        c18').replace('super().__init__(db)\n        self.n', 'self.n')},
    'init revert': {'main.py': PKG['X']['main.py'].replace('self.n = 0', 'revert("in init", 3)')}, 'illegal method': {'main.py': PKG['X']['main.py'] + '    @external\n    def w(self, a: object): pass\n'},
    'abstract': {'main.py': PKG['X']['main.py'].replace('    def on_install(self): pass\n', '')},
}
LEGAL = {   # unusual but complete descriptions
    'main_file': {'package.json': json.dumps({'main_file': 'main', 'main_score': 'Score'})}, 'both': {'package.json': desc(main_file='nothing')}, 'extra keys': {'package.json': desc(x=[1, {'y': None}])},
    'spaces': {'package.json': '\n {"main_module" : "main", \n"main_score":\t"Score"}\n '}, 'no version': {'package.json': desc(version=None)}, 'with init': {'__init__.py': ''}, 'init content': {'__init__.py': 'TAG = "init"\nScore = 5\n'},
    'reexport': {'impl.py': PKG['X']['main.py'], 'main.py': 'from .impl import Score\n'}, 'assigned': {'main.py': PKG['X']['main.py'] + 'Renamed = Score\n', 'package.json': desc(main_score='Renamed')},
    'sub class': {'main.py': PKG['X']['main.py'] + 'class Sub(Score):\n    pass\n', 'package.json': desc(main_score='Sub')},
}
LEFT = {    # ways to leave something behind on the instance or in the engine
    'attr': lambda s: setattr(s, 'n', 100), 'dict': lambda s: s.__dict__.update(n=100, _v=None), 'del': lambda s: delattr(s, '_v') or setattr(s, '_v', Fake()), 'method': lambda s: s.__dict__.update(run=lambda: 'bad'),
    'address': lambda s: s.__dict__.update({k: to_py(A3) for k in list(s.__dict__) if 'address' in k}), 'owner': lambda s: s.__dict__.update({k: to_py(A3) for k in list(s.__dict__) if 'owner' in k}),
    'context': lambda s: s.__dict__.update({k: None for k in list(s.__dict__) if 'context' in k}), 'db': lambda s: s.__dict__.update({k: None for k in list(s.__dict__) if k.endswith('__db')}), 'clear': lambda s: (s.__dict__.clear(), s.__dict__.update(n=1, _v=Fake())),
    'list': lambda s: s.__dict__.setdefault('kept', []).append(1), 'prop': lambda s: s.__dict__.update(address=5, owner=6, msg=7, tx=8, block=9), 'new': lambda s: setattr(s, '_n', {}),
    'raise': None, 'revert': None, 'exit': None, 'deep': None,
}


class Fake:
    def get(self):
        return 1000

    def set(self, v):
        pass


def units(tier):
    u = [('hist', i, j) for i in range(len(OPS)) for j in range(len(OPS))]
    u += [('defect', d) for d in DEFECTS] + [('legal', d) for d in LEGAL]
    u += [('tree', i) for i in range(6)] + [('left', d) for d in LEFT]
    return u


def unit(u, ctx):
    import sys
    import types
    h = types.ModuleType('c18host')
    h.created, h.hook = [], None
    sys.modules['c18host'] = h
    T = ctx.tier == 'thorough'
    count = [0]

    class World:
        """packages of one history, in directories of their own"""

        def __init__(self, node, later=('L',), names='XYZL'):
            count[0] += 1
            self.node = node
            node.stores = {}
            # named by a hash as the node does; the names of one history differ in one digit, at the end or at the start
            mid = '%012x%08x' % (os.getpid(), count[0])
            self.dir = {k: os.path.join(ctx.scores.root, '0x' + ('ab' * 21 + mid + 'XYZL'.index(k).__str__() + '0' if count[0] % 2 else
                                                                 '0' + 'XYZL'.index(k).__str__() + mid + 'ab' * 21)) for k in names}
            self.still = os.stat(ctx.scores.root).st_mtime_ns
            for k in names:
                if k not in later:
                    put(self.dir[k], PKG[k])
            self.touch()
            self.ready = {k: k not in later for k in names}
            self.values = {}
            self.step = 0

        def touch(self):
            # packages come and go within the resolution of the file system's clock
            os.utime(ctx.scores.root, ns=(self.still, self.still))

        def close(self):
            for d in self.dir.values():
                shutil.rmtree(d, ignore_errors=True)
                b = os.path.basename(d)
                for m in [m for m in sys.modules if m.split('.')[0] == b]:
                    del sys.modules[m]

        def invoke(self, k, ai, fail=False, ro=False, hook=None, only_ok=False):
            self.step += 1
            owner = W.addr(self.step & 1, 0x700 + self.step)
            h.created.clear()
            method = 'run' if not ro else 'only_' + k
            c = Contract(S[ai], self.dir[k], owner=owner, order={})

            def failing(s):
                __import__('iconservice').revert('wanted', 1)
            h.hook = failing if fail else hook
            o = yield Invoke(c, method, [], readonly=ro)
            ctx.transitions += 1
            if not self.ready[k]:
                if o.status == 0:
                    ctx.fail('call of a package that is not there gives %r' % (o.result,))
                return o
            if len(h.created) != 1:
                ctx.fail('%d instances created for one call' % len(h.created))
            v = self.values.get(ai, 0) + 1
            if fail:
                if (o.status, o.result) != (33, 'wanted'):
                    ctx.fail('status %d %r' % (o.status, o.result))
                return o
            if ro:
                if o.result != 1:
                    ctx.fail('%r status %d' % (o.result, o.status))
                return o
            if only_ok:
                return o
            self.values[ai] = v
            want = [k, k, k, S[ai], owner, 1, v, 1, v]
            if o.status != 0 or o.result != want:
                ctx.fail('call of %s at %s gives %r (status %d), expected %r' % (k, S[ai].text[-2:], o.result, o.status, want))
            return o

        def api(self, k):
            h.created.clear()
            o = yield GetApi(self.dir[k])
            ctx.transitions += 1
            names = sorted(e[1].decode() for e in o.data) if o.data else None
            want = sorted(['run', 'only_' + k, 'on_install', 'on_update']) if self.ready[k] else None
            if names != want or (o.status == 0) != self.ready[k]:
                ctx.fail('API of %s: status %d %r, expected %r' % (k, o.status, names, want))

        def bad(self):
            o = yield Invoke(Contract(A1, os.path.join(ctx.scores.root, 'nowhere'), order={}), 'run', [])
            if o.status != 2:
                ctx.fail('missing path gives status %d' % o.status)

        def do(self, op):
            if op[0] == 'i':
                yield from self.invoke(op[1], op[2])
            elif op[0] == 'fail':
                yield from self.invoke(op[1], op[2], fail=True)
            elif op[0] == 'ro':
                yield from self.invoke(op[1], op[2], ro=True)
            elif op[0] == 'g':
                yield from self.api(op[1])
            elif op[0] == 'appear':
                if not self.ready[op[1]]:
                    # as the node does: complete directory moved into place
                    tmp = self.dir[op[1]] + '.tmp'
                    put(tmp, PKG[op[1]])
                    os.rename(tmp, self.dir[op[1]])
                    self.touch()
                    self.ready[op[1]] = True
            else:
                yield from self.bad()

    def driver(node):
        k = u[0]
        if k == 'hist':
            for n in range(0, 3 if T else 2):
                for rest in itertools.product(OPS, repeat=n):
                    seq = (OPS[u[1]], OPS[u[2]]) + rest
                    w = World(node)
                    ctx.case(seq)
                    for op in seq:
                        yield from w.do(op)
                    ctx.state(seq)
                    ctx.outcome(sorted(w.values.items()), sorted(w.ready.items()))
                    w.close()
        elif k in ('defect', 'legal'):
            table = DEFECTS if k == 'defect' else LEGAL
            for first in itertools.product(('i', 'g'), repeat=2):
                for neighbour in (None, 'before', 'between'):
                    for repair in (False, True):
                        w = World(node, later=(), names='XY')
                        f = table[u[1]]
                        if f == 'no dir':
                            shutil.rmtree(w.dir['X'])
                        elif f == 'empty dir':
                            shutil.rmtree(w.dir['X'])
                            os.mkdir(w.dir['X'])
                        else:
                            put(w.dir['X'], f)
                        ctx.case((u, first, neighbour, repair))
                        ctx.state(u, first, neighbour, repair)
                        if neighbour == 'before':
                            yield from w.invoke('Y', 0)
                        w.ready['X'] = k == 'legal'
                        # a constructor that fails does so for each request of its own
                        for op in first:
                            if op == 'i':
                                o = yield from w.invoke('X', 1)
                                if u[1] == 'no dir' and o.status != 2:
                                    ctx.fail('missing path gives status %d' % o.status)
                            else:
                                yield from w.api('X')
                            if neighbour == 'between':
                                yield from w.invoke('Y', 1)
                                yield from w.api('Y')
                        if repair and k == 'defect' and u[1] not in ('empty main', 'lib without name', 'init raises', 'init args', 'init revert', 'illegal method', 'abstract', 'other class', 'base as score', 'function as score', 'module as score'):
                            put(w.dir['X'], dict(PKG['X'], **({'__init__.py': None} if u[1] == 'own init' else {})))
                            w.ready['X'] = True
                            yield from w.invoke('X', 1)
                            yield from w.api('X')
                            yield from w.invoke('X', 2)
                        yield from w.invoke('Y', 0)
                        w.close()
                        ctx.outcome(u, first, repair)
        elif k == 'tree':
            pairs = [('X', 0), ('X', 1), ('Y', 0), ('Y', 2), ('Z', 1), ('Z', 2)]
            for n in range(0, 4 if T else 3):
                for rest in itertools.product(pairs, repeat=n):
                    seq = (pairs[u[1]],) + rest
                    yield from tree(node, seq)
        elif k == 'left':
            f = LEFT[u[1]]
            for where in (('X', 0), ('X', 1), ('Y', 0)):
                for fail in (False, True):
                    w = World(node)
                    ctx.case((u, where, fail))
                    ctx.state(u, where, fail)

                    def hook(s):
                        if f:
                            f(s)
                        elif u[1] == 'raise':
                            s.n = 100
                            raise ValueError('x')
                        elif u[1] == 'revert':
                            s.n = 100
                            __import__('iconservice').revert('x')
                        elif u[1] == 'exit':
                            raise SystemExit()
                        elif u[1] == 'deep':
                            def g():
                                return g()
                            s.n = 100
                            g()
                        if fail:
                            raise KeyError(5)
                    o = yield from w.invoke('X', 0, hook=hook, only_ok=True)
                    if o.status == 0:
                        w.values[0] = w.values.get(0, 0) + 1
                    h.hook = None
                    yield from w.invoke(*where)
                    yield from w.api('X')
                    yield from w.invoke('X', 0)
                    yield from w.invoke('X', 1)
                    w.close()
                    ctx.outcome(u, o.status)

    def tree(node, seq):
        w = World(node, later=())
        node.contracts = {}
        owners = {a: W.addr(0, 0x900 + i) for i, a in enumerate(S)}
        seen = []
        depth = [0]

        def hook(s):
            d = depth[0]
            depth[0] += 1
            before = dict(s.__dict__)
            s.n = 50 + d
            s.mark = d
            if d + 1 < len(seq):
                k2, a2 = seq[d + 1]
                node.contracts = {S[a2]: Contract(S[a2], w.dir[k2], owner=owners[S[a2]], order={})}
                r = s.call(to_py(S[a2]), 'run', {})
                seen.append(r)
            if s.mark != d or s.n != 50 + d or s.address.to_bytes() != S[seq[d][1]].raw or s.owner.to_bytes() != owners[S[seq[d][1]]].raw or type(s).__module__.split('.')[0] != os.path.basename(w.dir[seq[d][0]]):
                ctx.fail('frame %d of %r changed: %r' % (d, seq, s.__dict__))
            s.n = 1
        h.hook = hook
        h.created.clear()
        ctx.case(seq)
        o = yield Invoke(Contract(S[seq[0][1]], w.dir[seq[0][0]], owner=owners[S[seq[0][1]]], order={}), 'run', [])
        h.hook = None
        ctx.transitions += len(seq)
        ctx.state(seq)
        if len(h.created) != len(seq) or len(set(map(id, h.created))) != len(seq):
            ctx.fail('%d instances for %d calls' % (len(set(map(id, h.created))), len(seq)))
        vals, res = {}, []
        for k, a in seq:
            vals[a] = vals.get(a, 0) + 1
        cnt = {}
        from mc.common import from_py
        for d, (k, a) in enumerate(seq):
            cnt[a] = cnt.get(a, 0) + 1
            res.append([k, k, k, S[a], owners[S[a]], 1, cnt[a], 1])
        got = [from_py(o.result)] + [from_py(r) for r in reversed(seen)]
        if o.status != 0 or len(got) != len(res) or any(list(g[:8]) != r for g, r in zip([fix(x) for x in got], [fix(x) for x in res])):
            ctx.fail('%r gives %r status %d, expected %r' % (seq, got, o.status, res))
        ctx.outcome(repr(res))
        w.close()

    run_engine(driver)
    ctx.sample(dict(unit=repr(u)))


def fix(x):
    return [tuple(e) if isinstance(e, (list, tuple)) else e for e in x]
