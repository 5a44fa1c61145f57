"""C17: the outcome of an invocation depends on the request, the code and the state only.

The same requests run on the real engine under every configuration of the process - log level, verbosity, package
verification flag, string hash seed, read chunking, what was loaded before - and, for contracts working close to the
end of the stack, at every recursion depth. All outcomes must agree.
"""
import itertools
import os
import pickle
import re
import subprocess
import sys

from mc import wire as W
from mc.common import forked, Host, A1, A2, A3, EOA1, to_py
from mc.node import Contract, GetApi, Invoke, Problem, run_engine, DEFAULT_COSTS_V1
from mc.run import Ctx, Scores, scratch, shutil, REPO, VERIF
from . import c05

TECHNIQUE = 'explicit-state model checking: exhaustive product of engine configurations, request menu and recursion depths on the real engine'
BOUNDS = dict(
    quick='~490 requests x 21 process configurations (7 log levels, -v, -p, 4 hash seeds, 3 chunkings, 3 orders of the menu, optimised mode, different directory); 16 operations x 75 recursion depths x 3 log levels x ascending/descending; nested call at 75 depths x callee loaded before by nothing/call/API x 3 log levels; exceptions and arguments whose text has side effects x 7 levels',
    thorough='as quick with 32 hash seeds and 200 depths')

LEVELS = ['panic', 'fatal', 'error', 'warn', 'info', 'debug', 'trace']
BASE = ('-u', 'u', '-s', '/none')


def norm(x):
    return re.sub(r'0x[0-9a-f]{6,}', '0xADDR', x) if isinstance(x, str) else x


def runner(root, args, chunk, order, out):
    """(in a process of its own) runs the whole menu in the given order, writes the outcomes"""
    sys.stderr.flush()
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    ctx = Ctx('quick')
    ctx.scores = Scores(root, 'x')
    menu = c05.Menu(ctx)
    more(menu)
    names = [n for n in menu.items if not n.startswith('res:loop')]
    if order == 'reverse':
        names.reverse()
    if order == 'twice':
        names = names + names
    obs = []
    ch = None
    if chunk:
        ch = (lambda av, n: chunk)

    def driver(node):
        for n in names:
            x = yield from menu.run(node, n)
            obs.append(x)
    try:
        run_engine(driver, chunk=ch, args=BASE + tuple(args), setup=setup_more(menu), threaded=not chunk)
        last = {}
        for n, o in zip(names, obs):
            o = tuple(norm(y) for y in o)
            if order == 'twice' and last.setdefault(n, o) != o:
                raise Problem('the same request again gives another outcome: %s\n  %s\n  %s' % (n, c05.brief(last[n]), c05.brief(o)))
            last[n] = o
        res = ('ok', last)
    except Problem as e:
        res = ('problem', str(e))
    with open(out, 'wb') as f:
        pickle.dump(res, f)


FAR = W.addr(1, 0xfa12)
OVER = [('reply', 0, 10 ** 9, 'x'), ('reply', 33, 10 ** 9, 'm'), ('reply', 0, -1, None), ('reply', 0, 2001, 1), ('reply', 0, 1999, 1)]


def more(menu):
    """Requests of this check alone: callees which report odd step counts, several malformed arguments at once."""
    for i, r in enumerate(OVER):
        for lim in (None, 2000, 10 ** 6):
            for caught in (0, 1):
                def p(s, i=i, caught=caught):
                    try:
                        return s.call(to_py(FAR), 'm%d' % i, {})
                    except BaseException as e:
                        if not caught:
                            raise
                        return 'caught %s' % e
                menu.add('over:%d:%s:%d' % (i, lim, caught), p, costs=DEFAULT_COSTS_V1, **({} if lim is None else dict(limit=lim)))
    c = menu.ctx.scores.make('from iconservice import *\nclass Score(IconScoreBase):\n    def __init__(self, db): super().__init__(db)\n    def on_install(self): pass\n'
                             '    def on_update(self): pass\n    @external\n    def f(self, a: int, b: Address, c: bytes = b"", d: bool = True, e: str = ""): return [a, b, c, d, e]\n')
    good = dict(a='0x1', b='cx' + '11' * 20, c='0x12', d='0x1', e='s')
    bad = dict(a='zz', b='zz', c='0x1', d='0x5', e=7)
    for r in range(6):
        for names in itertools.combinations('abcde', r):
            menu.req('args:' + ''.join(names), lambda names=names: Invoke(Contract(A3, c), 'f', {k: (bad if k in names else good)[k] for k in 'abcde'}))
            menu.req('miss:' + ''.join(names), lambda names=names: Invoke(Contract(A3, c), 'f', {k: good[k] for k in 'abcde' if k not in names}))
            menu.req('extra:' + ''.join(names), lambda names=names: Invoke(Contract(A3, c), 'f', dict(good, **{k * 2: 5 for k in names})))


def setup_more(menu):
    def setup(node):
        menu.setup(node)
        inner = node.on_call

        def on_call(node, fr, info):
            if info['to'] == FAR:
                return OVER[int(info['method'][1:])]
            return inner(node, fr, info)
        node.on_call = on_call
    return setup


def spawn(root, args=(), chunk=None, order='menu', env=None, flags=(), cwd=None, n=[0]):
    n[0] += 1
    out = os.path.join(root, 'out%d_%d' % (os.getpid(), n[0]))
    code = ('import sys; sys.dont_write_bytecode = True; sys.path.insert(0, %r); from mc import run; run.setup_path(); '
            'import warnings; warnings.simplefilter("ignore"); from checks import c17; c17.runner(%r, %r, %r, %r, %r)') % (VERIF, root, list(args), chunk, order, out)
    e = dict(os.environ, PYTHONHASHSEED='0')
    e.update(env or {})
    p = subprocess.run([sys.executable, *flags, '-c', code], env=e, cwd=cwd, timeout=600, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    if not os.path.exists(out):
        raise Problem('the engine process ended with %d under %r\n%s' % (p.returncode, (args, env, flags), p.stderr.decode(errors='replace')[-1500:]))
    with open(out, 'rb') as f:
        r = pickle.load(f)
    os.unlink(out)
    if r[0] == 'problem':
        raise Problem('configuration %r: %s' % ((args, chunk, order, env, flags), r[1]))
    return r[1]


def configs(tier):
    r = [dict(args=('-d', l)) for l in LEVELS] + [dict(args=('-v',)), dict(order='twice'), dict(order='reverse'), dict(order='reverse', args=('-d', 'trace'))]
    r += [dict(env={'PYTHONHASHSEED': str(s)}) for s in ((1, 2, 3, 99) if tier == 'quick' else range(1, 33))]
    r += [dict(flags=('-O',)), dict(cwd='/'), dict(env={'LANG': 'C', 'TZ': 'Asia/Seoul', 'LC_ALL': 'C'})]
    if tier == 'thorough':
        r += [dict(args=('-d', l), env={'PYTHONHASHSEED': '7'}, order='reverse') for l in LEVELS]
    return r


OPS = ['get', 'set', 'remove', 'event', 'balance', 'transfer', 'put', 'pop', 'in', 'dict', 'hash', 'json', 'fee', 'log', 'revert', 'raise']


def depth_prog(op, n):
    def prog(s):
        from iconservice import VarDB, ArrayDB, DictDB, sha3_256, json_dumps, revert, Logger
        v, a, d = VarDB('v', s.db, int), ArrayDB('a', s.db, int), DictDB('d', s.db, int)
        f = dict(get=lambda: v.get(), set=lambda: v.set(5), remove=lambda: v.remove(), event=lambda: s.Ev(1, 'a'), balance=lambda: s.icx.get_balance(s.address),
                 transfer=lambda: s.icx.transfer(s.address, 0), put=lambda: a.put(4), pop=lambda: a.pop(), hash=lambda: sha3_256(b'x'), json=lambda: json_dumps({'a': 1}),
                 dict=lambda: d.__setitem__('k', 1), fee=lambda: s.set_fee_sharing_proportion(7), log=lambda: Logger.warning('x'), revert=lambda: revert('m', 3))
        f['in'] = lambda: 4 in a
        f['raise'] = lambda: c05.raise_(ValueError('x'))
        f = f[op]

        def rec(k):
            if k == 0:
                return repr(f())
            return rec(k - 1)
        if n % 2:
            return rec(n)
        try:
            return rec(n)
        except BaseException as e:
            return type(e).__name__ + str(e)
    return prog


def obs(o, node):
    return tuple(norm(x) for x in (o.status, o.used, repr(o.raw), repr(o.frame.trace), repr(o.frame.fee), repr(o.frame.events)))


def depth_run(ctx, host, op, depths, args):
    def go():
        res = {}

        def driver(node):
            for n in depths:
                node.stores, node.balances = {A1: {}}, {A1: 3}
                host.prog(5, depth_prog(op, n))
                o = yield Invoke(host.contracts[A1], 'run', [5], costs=DEFAULT_COSTS_V1)
                res[n] = obs(o, node)
        run_engine(driver, args=BASE + args, setup=host.setup, threaded=True)
        return res
    return forked(go)


CALLEE = '''
from iconservice import IconScoreBase, external
class Score(IconScoreBase):
    def __init__(self, db): super().__init__(db)
    def on_install(self): pass
    def on_update(self): pass
    @external
    def run(self, i: int):
        return i
'''


def nested_run(ctx, host, codes, depths, mode, args):
    addrs = [W.addr(1, 0xb000 + i) for i in range(len(codes))]

    def go():
        res = {}

        def prog(n, to):
            def p(s):
                def rec(k):
                    if k == 0:
                        return s.call(to_py(to), 'run', {'i': 1})
                    return rec(k - 1)
                try:
                    return rec(n)
                except BaseException as e:
                    return type(e).__name__ + str(e)
            return p

        def driver(node):
            for a, c in zip(addrs, codes):
                node.contracts[a] = Contract(a, c)
            for j, n in enumerate(depths):
                c = node.contracts[addrs[j]]
                if mode == 'call':
                    yield Invoke(c, 'run', [4])
                elif mode == 'api':
                    yield GetApi(c.code)
                host.prog(5, prog(n, addrs[j]))
                o = yield Invoke(host.contracts[A1], 'run', [5])
                res[n] = obs(o, node)
        run_engine(driver, args=BASE + args, setup=host.setup, threaded=True)
        return res
    return forked(go)


def side_progs():
    import iconservice as ic

    def write(s, n):
        ic.VarDB('w%d' % n, s.db, int).set(n)

    def mk(base, s, n, names):
        def side(self, *a):
            write(s, n)
            s.Ev(n, 'side')
            return 'text'
        return type('X', (base,), {k: side for k in names})

    def ex(base, names):
        return lambda s: c05.raise_(mk(base, s, 1, names)('m'))
    r = {}
    for b in (ValueError, ic.IconScoreException, BaseException, ic.IconScoreException.__mro__[1]):
        for names in (('__str__',), ('__repr__',), ('__str__', '__repr__', '__format__')):
            r['raise:%s:%s' % (b.__name__, names[-1])] = ex(b, names)
    for names in (('__str__', '__repr__', '__format__'),):
        r['arg'] = lambda s, n=names: s.call(to_py(A2), 'run', {'i': 1, 'z': mk(list, s, 2, n)([1])})
        r['argpos'] = lambda s, n=names: s.call(to_py(A2), 'run', {'i': mk(int, s, 2, n)(1)})
        r['amount'] = lambda s, n=names: s.call(to_py(A2), 'pay', {'i': 1}, mk(int, s, 3, n)(0))
        r['method'] = lambda s, n=names: s.call(to_py(A2), mk(str, s, 4, n)('run'), {'i': 1})
        r['event'] = lambda s, n=names: s.Ev(mk(int, s, 5, n)(1), mk(str, s, 6, n)('q'))
        r['result'] = lambda s, n=names: mk(list, s, 7, n)([1, 2])
        r['value'] = lambda s, n=names: ic.VarDB('q', s.db, str).set(mk(str, s, 8, n)('q'))
        r['key'] = lambda s, n=names: ic.DictDB('q', s.db, str).__setitem__(mk(str, s, 8, n)('q'), 'x')
        r['revmsg'] = lambda s, n=names: ic.revert(mk(str, s, 9, n)('q'), 1)
        r['fee'] = lambda s, n=names: s.set_fee_sharing_proportion(mk(int, s, 10, n)(4))
    return r


def units(tier):
    n = len(configs(tier))
    u = [('config', i) for i in range(n)] + [('chunk', c) for c in (1, 3, 7)]
    u += [('depth', op) for op in OPS] + [('nested',), ('side',), ('verify',)]
    return u


def unit(u, ctx):
    win = 75 if ctx.tier == 'quick' else 200
    host = Host(ctx)
    if u[0] in ('config', 'chunk'):
        root = ctx.scores.root
        ctx.case('reference')
        if u[0] == 'chunk':
            # in-process transport: compare chunked delivery with unchunked on the same transport
            a, b = spawn(root, chunk=65536), None
            kw = dict(chunk=u[1])
        else:
            a = spawn(root)
            kw = configs(ctx.tier)[u[1]]
        ctx.case(('configuration', kw))
        b = spawn(root, **kw)
        for n in a:
            ctx.state(n, repr(kw))
            ctx.outcome(a[n])
            ctx.transitions += 1
            ctx.execs += 2
            if a[n] != b[n]:
                ctx.cur = ('configuration', kw, n)
                ctx.fail('request %r: outcome differs under configuration %r\n  default: %s\n  here:    %s' % (n, kw, c05.brief(a[n]), c05.brief(b[n])))
        ctx.sample(dict(configuration=kw, requests=len(a)))
        return
    if u[0] == 'verify':
        # -p only concerns API requests
        ctx.case('verify')
        a, b = spawn(ctx.scores.root), spawn(ctx.scores.root, args=('-p',))
        for n in a:
            ctx.transitions += 1
            ctx.execs += 1
            if not n.startswith(('api:', 'deploy:')) and a[n] != b[n]:
                ctx.fail('request %r: outcome differs with -p\n %s\n %s' % (n, c05.brief(a[n]), c05.brief(b[n])))
        return
    if u[0] == 'depth':
        rng = list(range(1000 - win, 1000))
        ref = None
        for args, order in itertools.product(((), ('-d', 'trace'), ('-d', 'panic')), (1, -1)):
            ctx.case((u, args, order))
            r = depth_run(ctx, host, u[1], rng[::order], args)
            ref = ref or r
            for n in rng:
                ctx.execs += 1
                ctx.state(u[1], n, args, order)
                ctx.outcome(ref[n])
                ctx.transitions += 1
                if r[n] != ref[n]:
                    ctx.fail('%s at depth %d: outcome differs with log options %r, order %d\n  %r\n  %r' % (u[1], n, args, order, ref[n], r[n]))
        return
    if u[0] == 'nested':
        rng = list(range(1000 - win, 1000))
        codes = [ctx.scores.make(CALLEE) for _ in rng]
        ref = None
        for args, mode in itertools.product(((), ('-d', 'trace'), ('-d', 'panic')), ('none', 'call', 'api')):
            ctx.case((u, args, mode))
            r = nested_run(ctx, host, codes, rng, mode, args)
            ref = ref or r
            for n in rng:
                ctx.execs += 1
                ctx.state(n, args, mode)
                ctx.outcome(ref[n])
                ctx.transitions += 1
                if r[n] != ref[n]:
                    ctx.fail('nested call at depth %d: outcome differs when the callee was loaded by %r, log options %r\n  %r\n  %r' % (n, mode, args, ref[n], r[n]))
        return
    if u[0] == 'side':
        progs = side_progs()
        ref = {}
        for lv in LEVELS:
            for caught in (0, 1):
                def go(lv=lv, caught=caught):
                    res = {}

                    def driver(node):
                        host.prog(1, lambda s: 1)
                        for n, p in progs.items():
                            node.stores, node.balances = {A1: {}}, {A1: 3}
                            host.prog(7, p)
                            if caught:
                                def outer(s):
                                    try:
                                        return ['r', s.call(to_py(A1), 'run', {'i': 7})]
                                    except BaseException as e:
                                        return ['e', str(e)]
                                host.prog(8, outer)
                            o = yield Invoke(host.contracts[A1], 'run', [8 if caught else 7], costs=DEFAULT_COSTS_V1)
                            res[n] = obs(o, node)
                    run_engine(driver, args=BASE + ('-d', lv), setup=host.setup)
                    return res
                ctx.case((lv, caught))
                r = forked(go)
                for n, x in r.items():
                    ctx.execs += 1
                    ctx.state(n, lv, caught)
                    ctx.transitions += 1
                    ctx.outcome(x)
                    if ref.setdefault((n, caught), x) != x:
                        ctx.fail('%s: outcome depends on the log level %s\n  %r\n  %r' % (n, lv, ref[n, caught], x))
