"""C15: the package validator admits only whitelisted imports and calls.

Packages generated from a grammar (import form x placement x file x module size) are submitted to the real engine with
package verification on; whether the API request is refused is compared with the grammar. Forms whose standing the
statement leaves open (imports that the compiler drops, absolute imports of own modules, `from iconservice import name`
of a listed name, relative imports beyond the package) are not generated.
"""
import itertools
import os
import py_compile
import sys

from mc.node import run_engine, GetApi

TECHNIQUE = 'model checking: exhaustive enumeration of packages of a bounded grammar (import forms x placements x files x operand-size classes) submitted to the real engine'
BOUNDS = dict(
    quick='18 forbidden modules x 12 import forms; 5 forms x 24 placements x 7 files; 5 forms x 24 placements x 11 x 11 name/constant counts around 256 (module and function scope); 4 names x 16 uses x 24 placements; 30 legal packages x sizes; compiled files; all sequences of <=3 over 6 packages',
    thorough='all forbidden modules and forms in every placement and file; sizes around 65536')

MAIN = '''from iconservice import *
class Score(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
    def on_install(self): pass
    def on_update(self): pass
    @external
    def run(self): pass
'''
MODS = ['os', 'sys', 'json', 'pyexec', 'importlib', 'builtins', 'subprocess', 'socket', 'ctypes', 'random', 'time', 'iconservic', 'iconservice2', 'ICONSERVICE', 'icon', 'service', 'i', '_io']


def forms(m):
    """(statement, usable inside a function)"""
    return [('import %s' % m, 1), ('import %s as q' % m, 1), ('import iconservice, %s' % m, 1), ('import %s, iconservice' % m, 1), ('from %s import a' % m, 1), ('from %s import a as b, c' % m, 1),
            ('from %s import *' % m, 0), ('import %s.sub' % m, 1), ('from %s.sub import a' % m, 1), ('import %s.sub as q' % m, 1), ('import iconservice; import %s' % m, 1), ('from %s.a.b import (\n  c,\n  d)' % m, 1)]


ICON_BAD = ['import iconservice.abc', 'from iconservice.abc import x', 'import pyexec.logger', 'from iconservice import os', 'from iconservice import os as Address', 'from iconservice import nothing',
            'from iconservice import Address, sys', 'import iconservice.database as iconservice']

PLACES = {   # name -> template of `S` at some depth; I = the indented statement
    'top': 'I',
    'fn': 'def f():\n    I',
    'fn2': 'def f():\n    def g():\n        I\n    return g',
    'fn3': 'def f():\n    def g():\n        def h():\n            I\n        return h\n    return g',
    'method': 'class C:\n    def m(self):\n        I',
    'class': 'class C:\n    I',
    'class2': 'class C:\n    class D:\n        I',
    'classfn': 'def f():\n    class C:\n        def m(self):\n            I\n    return C',
    'static': 'class C:\n    @staticmethod\n    def m():\n        I',
    'prop': 'class C:\n    @property\n    def m(self):\n        I',
    'if': 'x = 1\nif x:\n    I',
    'else': 'x = 1\nif x:\n    pass\nelse:\n    I',
    'try': 'try:\n    I\nexcept Exception:\n    pass',
    'except': 'try:\n    pass\nexcept Exception:\n    I',
    'finally': 'try:\n    x = 1\nfinally:\n    I',
    'with': 'class M:\n    def __enter__(self): pass\n    def __exit__(self, *a): pass\nwith M():\n    I',
    'for': 'for z in ():\n    I',
    'while': 'x = 0\nwhile x:\n    I',
    'gen': 'def f():\n    yield 1\n    I',
    'async': 'async def f():\n    I',
    'deco': 'def f(x):\n    I\n    return x\nclass C:\n    @f\n    def g(self): pass',
    'closure': 'def f(a):\n    def g():\n        I\n        return a\n    return g',
    'match': 'x = 1\nmatch x:\n    case 2:\n        I\n    case _:\n        pass',
    'lateclass': 'class C:\n    a = [z for z in ()]\n    b = lambda self: 0\n    def m(self): return 1\n    I',
}
FUNCTIONAL = {'fn', 'fn2', 'fn3', 'method', 'classfn', 'static', 'prop', 'gen', 'async', 'deco', 'closure', 'class', 'class2', 'lateclass'}
FILES = ['main', 'helper', 'unused', 'sub/__init__', 'sub/mod', 'sub/deep/mod', '__init__']
CLS = 5        # forms used in the larger products
SIZES = [0, 1, 200, 250, 251, 252, 253, 254, 255, 256, 300]


def place(p, stmt):
    t = PLACES[p]
    r = []
    for line in t.split('\n'):
        if line.strip() == 'I':
            ind = line[:len(line) - 1]
            r += [ind + s for s in stmt.split('\n')]
        else:
            r.append(line)
    return '\n'.join(r) + '\n'


def pad(names, consts, indent=''):
    return ''.join('%sn%d = 0\n' % (indent, i) for i in range(names)) + ''.join('%sy = %d.5\n' % (indent, i) for i in range(consts))


def padded(p, stmt, names, consts):
    """The statement with padding in the same scope before it."""
    body = pad(names, consts).rstrip('\n')
    return place(p, (body + '\n' if body else '') + ('global %s\n' % ', '.join('n%d' % i for i in range(names)) if names and p in FUNCTIONAL and not p.endswith('class') else '') * 0 + stmt)


def padded_fn(names, consts, stmt):
    """Inside a function names are global loads."""
    b = ''.join('    n%d\n' % i for i in range(names)) + ''.join('    y = %d.5\n' % i for i in range(consts))
    return 'def f():\n' + b + '    ' + stmt.replace('\n', '\n    ') + '\n'


BLACK = ['exec', 'eval', 'compile', '__import__']
USES = ['K', 'K("1")', 'x = K', 'x = [K]', 'x = {"a": K}', 'x = (lambda: K)', 'x = [K for z in (1,)]', 'x = f"{K}"', 'x = "a" if K else "b"', 'def w(a=K): pass', 'def w(a: K): pass',
        'class W(K): pass', '@K\ndef w(): pass', 'x = object.K', 'del K', 'x = 1 + K(2) * 3', 'assert K', 'raise K', 'x = print(K=K)', 'x: K = 1', 'from . import K', 'from . import a as b, K']
LEGAL = {
    'star': '', 'plain': 'import iconservice\n', 'alias': 'import iconservice as q\n', 'twice': 'import iconservice\nimport iconservice as r\n',
    'relative': 'from . import helper\n', 'relative2': 'from .helper import thing\n', 'relative3': 'from .helper import thing as os, other as sys\n', 'rel sub': 'from .sub import mod\n', 'rel sub2': 'from .sub.mod import sub_thing\n',
    'rel deep': 'from .sub.deep.mod import deep_thing\n', 'rel star': 'from .helper import *\n', 'in fn': 'def f():\n    import iconservice\n    from . import helper\n    from .sub.mod import sub_thing\n',
    'in class': 'class C:\n    import iconservice\n    from . import helper\n', 'strings': 'x = "exec"\ny = "import os"\nz = """eval(compile(__import__))"""\n', 'similar': 'executor = 1\nevaluate = 2\ncompiled = 3\n_import_ = 4\nexec_ = 5\n',
    'comment': '# import os\n#exec("x")\n', 'doc': '"""import os\nexec eval"""\n', 'os name': 'os = 1\nsys = os\njson = {}\nimportlib = builtins = None\n',
}
OTHERS = {
    'helper': 'from iconservice import *\nthing = 1\nother = 2\n', 'sub/__init__': '', 'sub/mod': 'from .. import helper\nfrom ..helper import thing\nfrom .deep import mod\nsub_thing = thing\n',
    'sub/deep/__init__': '', 'sub/deep/mod': 'from ... import helper\nfrom ...helper import other\nfrom ..deep import mod as me\nimport iconservice\ndeep_thing = other\n', 'unused': 'import iconservice\n', '__init__': '',
}
DATA = {'README.md': 'import os', 'data.json': '{}', 'x.txt': 'exec', 'x.pyi': 'import os', 'x.py.bak': 'import os', 'sub/x.pyx': 'import os', 'x.PY': 'import os', 'noext': 'import os'}


def units(tier):
    u = [('mods', i) for i in range(len(MODS))] + [('icon',)]
    u += [('place', f, p) for f in range(len(FILES)) for p in PLACES]
    u += [('size', p) for p in PLACES] + [('sizefn',)]
    u += [('black', k, p) for k in BLACK for p in PLACES]
    u += [('legal', x) for x in LEGAL] + [('legalsize', p) for p in PLACES]
    u += [('compiled',), ('noexec',), ('data',), ('own',)] + [('seq', i) for i in range(6)]
    if tier == 'thorough':
        u += [('huge', i) for i in range(6)]
    else:
        u += [('huge', 0), ('huge', 3)]
    return u


def unit(u, ctx):
    T = ctx.tier == 'thorough'

    def ask(files, legal, what, extra=None):
        fs = dict({k + '.py': v for k, v in files.items() if k != 'main'}, **(extra or {}))
        code = ctx.scores.make(files.get('main', MAIN), files=fs)
        ctx.case(what)
        o = yield GetApi(code)
        ctx.transitions += 1
        ctx.state(files if sum(map(len, files.values())) < 5000 else what)
        ctx.outcome(legal, o.status)
        if legal and (o.status != 0 or not any(e[1] == b'run' for e in o.data)):
            ctx.fail('legal package refused (%r) %r: %s' % (o.status, what, short(files)))
        if not legal and (o.status == 0 or o.data is not None):
            ctx.fail('illegal package accepted %r: %s' % (what, short(files)))
        for n in [m for m in sys.modules if m.split('.')[0] == os.path.basename(code)]:
            del sys.modules[n]
        __import__('shutil').rmtree(code)

    def driver(node):
        k = u[0]
        if k == 'mods':
            m = MODS[u[1]]
            for st, fn in forms(m):
                for p in (PLACES if T else ('top', 'fn', 'class', 'try')):
                    if p in FUNCTIONAL and not fn:
                        continue
                    for f in ((0, 3, 5) if T else (0,)):
                        yield from ask(with_(FILES[f], place(p, st)), False, (st, p, FILES[f]))
        elif k == 'own':
            # files of the package named like modules of the system
            for m in ('os', 'sys', 'json', 'pyexec', 'secp', 'helper', 'sub'):
                for st, fn in forms(m):
                    for p in ('top', 'fn', 'try'):
                        if p in FUNCTIONAL and not fn:
                            continue
                        yield from ask(dict(with_('main', place(p, st)), **({} if m in ('helper', 'sub') else {m: 'a = b = c = 1\n'})), False, ('own', st, p))
                    if m not in ('helper', 'sub'):
                        fs = dict(with_('main', st + '\n'), **{m + '/__init__': '', m + '/a': ''})
                        yield from ask(fs, False, ('own package', st))
                if m not in ('helper', 'sub'):
                    yield from ask(dict(OTHERS, main=MAIN.replace('\nclass', '\nfrom .%s import a\nfrom . import %s\nclass' % (m, m)), **{m: 'a = 1\n'}), True, ('own relative', m))
        elif k == 'icon':
            for st in ICON_BAD:
                for p in PLACES:
                    yield from ask(with_('main', place(p, st)), False, (st, p))
        elif k == 'place':
            f, p = u[1:]
            for st, fn in [forms('os')[i] for i in (range(12) if T else (0, 1, 2, 4, 6))]:
                if p in FUNCTIONAL and not fn:
                    continue
                yield from ask(with_(FILES[f], place(p, st)), False, (st, p, FILES[f]))
        elif k == 'size':
            p = u[1]
            for n, c in itertools.product(SIZES, repeat=2):
                for st, fn in [forms('os')[i] for i in (0, 1, 4, 6)]:
                    if p in FUNCTIONAL and not fn:
                        continue
                    yield from ask(with_('main', padded(p, st, n, c)), False, (st, p, n, c))
        elif k == 'sizefn':
            for n, c in itertools.product(SIZES, repeat=2):
                for m in ('os', 'iconservice2'):
                    for st, fn in [forms(m)[i] for i in (0, 1, 2, 4, 7)]:
                        yield from ask(with_('unused', padded_fn(n, c, st)), False, (st, n, c))
                for st in ('import iconservice', 'from . import helper', 'from .helper import thing, other', 'import iconservice as z\nfrom .sub import mod'):
                    yield from ask(with_('unused', padded_fn(n, c, st)), True, (st, n, c))
        elif k == 'black':
            for us in USES:
                if us.startswith('from') and False:
                    continue
                yield from ask(with_('main', place(u[2], us.replace('K', u[1]) if not us.startswith('x = object') else 'x = object.' + u[1])), None if skip(us, u[2]) else False, (u, us)) if not skip(us, u[2]) else ()
        elif k == 'legal':
            for order in (0, 1):
                yield from ask(dict(OTHERS, main=MAIN + LEGAL[u[1]] if order else LEGAL[u[1]] + MAIN), True, (u[1], order))
            for f in ('helper', 'unused', '__init__'):
                if u[1] in ('relative', 'relative2', 'relative3', 'rel star') and f == 'helper':
                    continue
                if f == 'helper' and 'in' in u[1]:
                    continue
                yield from ask(with_(f, LEGAL[u[1]].replace('from .helper import *', 'from .helper import thing')), True, (u[1], f))
        elif k == 'legalsize':
            p = u[1]
            for n, c in itertools.product(SIZES[::2] + [255], repeat=2):
                for st in ('import iconservice', 'from . import helper', 'from .helper import thing, other', 'from iconservice import *'):
                    if 'iconservice import *' in st and p in FUNCTIONAL:
                        continue
                    yield from ask(dict(OTHERS, main=MAIN, unused=padded(p, st, n, c)), True, (st, p, n, c))
        elif k == 'compiled':
            src = os.path.join(ctx.scores.root, 'evil.py')
            open(src, 'w').write('import os\n')
            pyc = py_compile.compile(src, cfile=src + 'c')
            data = open(pyc, 'rb').read().decode('latin-1')
            for name in ('evil.pyc', 'sub/evil.pyc', 'sub/deep/evil.pyc', 'evil.so', 'evil.abi3.so', 'main.pyc', '__pycache__/evil.pyc', 'new/evil.pyc', '__init__.pyc') + tuple(
                    'evil' + s for s in __import__('importlib').machinery.EXTENSION_SUFFIXES):
                yield from ask(dict(OTHERS, main=MAIN), False, name, {name: 'x' + data})
            yield from ask(dict(OTHERS, main=MAIN), True, 'cache', {'__pycache__/main.cpython-300.pyc': 'junk', 'sub/__pycache__/mod.cpython-300.pyc': 'junk'})
        elif k == 'noexec':
            # nothing of a refused package runs
            mark = 'import iconservice\niconservice.__dict__["c15mark"] = 1\n'
            for marked in ('__init__', 'sub/__init__', 'sub/mod', 'sub/deep/__init__', 'main', 'helper', 'unused'):
                for bad in FILES + ['zzz', 'sub/zzz', 'aaa', 'sub/deep/aaa', 'z/y/x', 'sub/deep/__init__']:
                    for st in ('import os', 'x = eval'):
                        fs = dict(OTHERS, main=MAIN)
                        fs[marked] = mark + fs.get(marked, '')
                        fs[bad] = fs.get(bad, '') + st + '\n'
                        yield from ask(fs, False, (marked, bad, st))
                        import iconservice
                        if iconservice.__dict__.pop('c15mark', None):
                            ctx.fail('code of a refused package ran: marked %s, forbidden in %s' % (marked, bad))
        elif k == 'data':
            yield from ask(dict(OTHERS, main=MAIN), True, 'data', DATA)
            for n, v in DATA.items():
                yield from ask(dict(OTHERS, main=MAIN), True, n, {n: v})
                yield from ask(dict(OTHERS, main=MAIN, unused='import os\n'), False, n, {n: v})
        elif k == 'seq':
            kinds = [(dict(OTHERS, main=MAIN), True), (with_('main', 'import os\n'), False), (with_('sub/mod', 'x = exec\n'), False), (dict(OTHERS, main=MAIN + LEGAL['rel deep']), True),
                     (with_('helper', 'from json import loads\n'), False), (with_('main', 'x = (\n'), False)]
            for n in range(0, 4 if T else 3):
                for s in itertools.product(range(6), repeat=n):
                    for i in (u[1],) + s:
                        yield from ask(kinds[i][0], kinds[i][1], ((u[1],) + s, i))
        elif k == 'huge':
            n, c = [(65600, 0), (0, 65600), (65535, 3), (300, 65530), (65537, 65537), (256, 65536)][u[1]]
            for st, legal in (('import os', False), ('from os import path', False), ('import iconservice', True), ('from .helper import thing, other', True)):
                yield from ask(with_('unused', padded('top', st, n, c)), legal, (st, n, c))
                yield from ask(with_('unused', padded_fn(n, c, st)), legal, ('fn', st, n, c))
    run_engine(driver, args=('-p', '-u', 'uuid-1', '-s', '/nonexistent/ee.socket'))
    ctx.sample(dict(unit=u))


def skip(us, p):
    """Uses that are no use of the name by the compiler's account, or not legal Python there."""
    if us.startswith('x: K') and p in ('fn', 'fn2', 'fn3', 'method', 'classfn', 'static', 'prop', 'gen', 'async', 'deco', 'closure'):
        return True      # annotations of local variables are not evaluated
    if us.startswith('del') and p in ('fn', 'fn2', 'fn3', 'method', 'classfn', 'static', 'prop', 'gen', 'async', 'deco', 'closure'):
        return True      # a local variable
    return False


def with_(f, text):
    fs = dict(OTHERS, main=MAIN)
    fs[f] = fs.get(f, '') + text
    return fs


def short(files):
    return ' | '.join('%s.py: %s' % (k, v if len(v) < 300 else v[:100] + '...' + v[-100:]) for k, v in files.items() if v != OTHERS.get(k) and v != MAIN)
