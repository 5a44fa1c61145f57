"""C14: failures keep their status code and message through every call level.

A leaf fails in every way under call chains of up to three engine frames, each level treating the failure in every way; the
status and message of every RESULT and of every exception contract code sees are compared with the documented ones. Statuses
the node itself answers with are enumerated completely.
"""
import itertools

from mc import wire as W
from mc.common import A1, A2, A3, Host, to_py
from mc.node import run_engine, Invoke, Contract

TECHNIQUE = 'model checking: exhaustive enumeration of failures x call chains x treatments on the real engine against the documented status codes'
BOUNDS = dict(
    quick='all revert codes -100..1100 and 24 boundary/odd codes x 3 ways of raising, 12 messages; 45 failures x all treatments (8) of chains of 1..3 levels x 2 call styles; every status 0..1100 answered by the node x 4 treatments x 3 ways of calling x 6 messages',
    thorough='all statuses 0..1100 through chains of 2 levels with every treatment; chains of 4 levels')

MSGS = ['m', '', 'x' * 2000, 'y' * 9000, '\u00e9\U0001f600', '\0', 'a\nb', '%s {0} {x}', '(32)', 'None', ' ', '\\x', 'Reverted(3)']


def code_of(e):
    from pyexec.base.exception import IconServiceBaseException
    return int(e.code) if isinstance(e, IconServiceBaseException) else 1


def clamp(n):
    return max(32, min(999, 32 + n))


def leafs():
    """name -> (function, status, message or None if not specified)"""
    ic = __import__('iconservice')
    L = {}

    def rev(code, msg='m', how='revert'):
        def f(s):
            if how == 'revert':
                ic.revert(msg, code)
            elif how == 'raise':
                raise ic.IconScoreException(msg, code)
            else:
                class MyErr(ic.IconScoreException):
                    def __init__(self, m):
                        super().__init__(m, code)
                raise MyErr(msg)
        return f
    L['ok'] = (lambda s: 'fine', 0, 'fine')
    for c in (0, 1, 5, 966, 967, 968, 10 ** 6, -1, -32, -33, 1 << 70, -(1 << 70)):
        L['revert%d' % c] = (rev(c), clamp(c), 'm')
    for m in MSGS:
        L['msg%r' % m[:9]] = (rev(3, m), 35, m)
    L['raise'] = (rev(7, 'r', 'raise'), 39, 'r')
    L['subclass'] = (rev(8, 's', 'sub'), 40, 's')

    def exc(e):
        def f(s):
            raise e
        return f
    for e in (ValueError('v'), KeyError('k'), AssertionError('a'), TypeError(), ZeroDivisionError('z'), RecursionError('r'), MemoryError('m'), NotImplementedError(), StopIteration(1),
              GeneratorExit(), KeyboardInterrupt(), SystemExit(0), SystemExit('bye'), EOFError(), OSError(2, 'x'), UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'bad'), TimeoutError('t'),
              BrokenPipeError(), ConnectionResetError(), BaseException('b'), Exception()):
        L['exc%r' % e] = (exc(e), 1, None)

    def rec(s):
        def g(n):
            return g(n + 1)
        g(0)
    L['recursion'] = (rec, 1, None)
    L['undefined'] = (lambda s: undefined_name, 1, None)          # noqa
    L['event type'] = (lambda s: s.Ev('x', 'y'), 5, None)
    L['event count'] = (lambda s: s.Ev(1, 'x', 3), 5, None)
    L['fee'] = (lambda s: s.set_fee_sharing_proportion(101), 5, None)
    db = lambda s: s.__dict__['_mc_db']
    L['index'] = (lambda s: ic.ArrayDB('none', db(s), int)[3], 6, None)
    L['depth'] = (lambda s: ic.DictDB('d', db(s), int, depth=2).__setitem__('a', 1), 8, None)
    L['iter'] = (lambda s: list(ic.DictDB('d', db(s), int)), 8, None)
    L['amount'] = (lambda s: s.create_interface_score(to_py(A3), iface()).icx(-1), 6, None)
    L['oos'] = (lambda s: ic.sha3_256(b'\0' * 320000), 10, None)
    L['method'] = (lambda s: s.call(to_py(A3), 'nope', {}), 3, None)
    L['hidden'] = (lambda s: s.call(to_py(A3), 'Ev', {}), 3, None)
    L['payable'] = (lambda s: s.call(to_py(A3), 'run', {'i': 99}, 5), 4, None)
    L['balance'] = (lambda s: s.call(to_py(A3), 'pay', {'i': 99}, 10 ** 30), 11, None)
    L['code revert'] = (lambda s: ic.revert('m', None), 6, None)
    return L


TREAT = ['let', 'swallow', 'score', 'other', 'again', 'exc', 'finally', 'code']


def treat(t, st, msg):
    """(status, message) of a level whose callee ended with (st, msg)"""
    if st == 0:
        return 0, 'fine'
    if t in ('let', 'again', 'finally'):
        return st, msg
    if t == 'swallow':
        return 0, 'fine'
    if t == 'score':
        return (0, 'fine') if st >= 32 else (st, msg)
    if t == 'other':
        return 32 + 100, 'other'
    if t == 'exc':
        return 1, None
    if t == 'code':
        return clamp(st), msg
    raise KeyError(t)


def apply(t, fn, seen):
    ic = __import__('iconservice')
    if t == 'let':
        fn()
    elif t == 'finally':
        try:
            fn()
        finally:
            seen.append('finally')
    elif t == 'score':
        try:
            fn()
        except ic.IconScoreException as e:
            seen.append((code_of(e), e.message))
    else:
        try:
            fn()
        except BaseException as e:   # noqa
            seen.append((code_of(e), getattr(e, 'message', None)))
            if t == 'other':
                ic.revert('other', 100)
            if t == 'again':
                raise
            if t == 'exc':
                raise ValueError('wrapped') from e
            if t == 'code':
                ic.revert(getattr(e, 'message', None), code_of(e))
    return 'fine'


def units(tier):
    n = len(leafs_names())
    u = [('code', i) for i in range(12)] + [('odd',)]
    u += [('chain', d, i) for i in range(n) for d in ((1, 2, 3) if tier != 'thorough' else (1, 2, 3, 4))]
    u += [('node', i) for i in range(23)]
    if tier == 'thorough':
        u += [('node2', i) for i in range(23)]
    u += [('api',), ('top',)]
    return u


def leafs_names():
    from mc.common import forked
    return forked(lambda: list(leafs()))


def unit(u, ctx):
    host = Host(ctx, readonly=('view',))

    def same(o, st, msg, what):
        if o.status != st or (msg is not None and o.result != msg) or (st and not isinstance(o.result, str)):
            ctx.fail('%s: status %d message %r, expected %d %r' % (what, o.status, o.result, st, msg))

    def driver(node):
        ic = __import__('iconservice')
        k = u[0]
        node.balances = {A1: 1000, A2: 1000, A3: 1000}
        if k == 'code':
            for n in range(-100 + 100 * u[1], 1 + 100 * u[1]):
                for how in range(3):
                    def p(s):
                        if how == 0:
                            ic.revert('m%d' % n, n)
                        elif how == 1:
                            raise ic.IconScoreException('m%d' % n, n)
                        ic.revert(code=n, message='m%d' % n)
                    ctx.case((n, how))
                    o = yield host.inv(p)
                    same(o, clamp(n), 'm%d' % n, (n, how))
                    ctx.transitions += 1
                    ctx.state(n, how)
                    ctx.outcome(o.status, o.result)
        elif k == 'odd':
            for c in ['3', b'4', 1.9, True, False, '0x3', '', None, [], {}, 'x', object, float('nan'), float('inf'), -1.5, 1 << 70, -(1 << 70), '-5', '99999', 966.99, to_py(A1)]:
                try:
                    want = clamp(int(c))
                except Exception:
                    want = 6
                ctx.case(('code', repr(c)[:40]))
                o = yield host.inv(lambda s: ic.revert('m', c))
                same(o, want, 'm' if want >= 32 else None, repr(c)[:40])
                ctx.state('odd', repr(c)[:40])
                ctx.transitions += 1
                ctx.case(('index', repr(c)[:40]))

                def q(s):
                    raise ic.IconScoreException('m', c)
                o = yield host.inv(q)
                same(o, want if isinstance(c, int) else 6, 'm' if isinstance(c, int) else None, ('index', repr(c)[:40]))
                ctx.outcome(o.status)
            for m in MSGS + [5, None, b'x', 1.5, True, ['a'], ()]:
                ctx.case(('message', repr(m)[:40]))
                o = yield host.inv(lambda s: ic.revert(m, 2))
                same(o, 34, m if isinstance(m, str) else str(m), ('message', repr(m)[:40]))
                ctx.outcome(o.result)
            for m in MSGS:
                ctx.case(('default code', m))
                o = yield host.inv(lambda s: ic.revert(m))
                same(o, 32, m, ('default code', m))
        elif k == 'chain':
            yield from chain(node, u[1], u[2])
        elif k in ('node', 'node2'):
            yield from answered(node, u[1], k == 'node2')
        elif k == 'api':
            # a failing API request leaves statuses alone
            from mc.node import GetApi
            for st, src in ((2, None), (1, 'import nothing_there\n'), (1, 'x = \n'), (32 + 5, 'from iconservice import revert\nrevert("at import", 5)\n')):
                code = ctx.scores.make(src) if src else ctx.scores.root + '/none'
                for rep in range(2):
                    ctx.case((st, src, rep))
                    o = yield GetApi(code)
                    if o.status == 0:
                        ctx.fail('broken package has an API')
                    o = yield Invoke(Contract(A1, code), 'run', [0])
                    if o.status == 0 or (st >= 32 and (o.status, o.result) != (st, 'at import')):
                        ctx.fail('broken package: status %d %r' % (o.status, o.result))
                    o = yield host.inv(lambda s: ic.revert('z', 9))
                    same(o, 41, 'z', 'after a broken package')
        elif k == 'top':
            for inv, st in ((dict(method='nope'), 3), (dict(method='Ev'), 3), (dict(method='run', value=1), 4), (dict(method='view', value=1), 4), (dict(method='__init__'), 3),
                            (dict(method='fallback', params=[]), 0)):
                for rep in range(2):
                    ctx.case(inv)
                    host.prog(-1, lambda s: 'fine')
                    host.prog(0, lambda s: 'fine')
                    o = yield Invoke(host.contracts[A1], inv['method'], inv.get('params', [0]), value=inv.get('value', 0))
                    same(o, st, None if st else 'fine', inv)
                    ctx.transitions += 1
                    ctx.state(inv)

    def chain(node, depth, li):
        L = leafs()
        name = list(L)[li]
        fn, lst, lmsg = L[name]
        costs = {'schema': 1, 'apiCall': 10 ** 12} if name == 'oos' else {}
        host.prog(99, lambda s: 'fine')
        host.prog(-1, lambda s: 'fine')
        deep = depth == 4 or (depth == 3 and ctx.tier != 'thorough')
        for ts in itertools.product(*[('let', 'again') if deep and not d else TREAT for d in range(depth)]):
            # ts[0] is the treatment inside the leaf frame, the others those of its callers
            for style in (('call',) if depth == 1 else ('call', 'iface')):
                if (depth == 4 or deep) and style == 'iface':
                    continue
                seen = [[] for _ in range(depth)]

                def p(lvl):
                    def run(s):
                        if lvl == 0:
                            return apply(ts[0], lambda: fn(s), seen[0])
                        to = to_py((A1, A2, A3)[lvl % 3])
                        host.prog(lvl - 1, p(lvl - 1))
                        if style == 'call':
                            c = lambda: s.call(to, 'run', {'i': lvl - 1})
                        else:
                            c = lambda: s.create_interface_score(to, I).run(lvl - 1)
                        return apply(ts[lvl], c, seen[lvl])
                    return run

                I = iface()
                ctx.case((name, ts, style))
                o = yield host.inv(p(depth - 1), i=depth - 1, limit=10 ** 9, costs=costs)
                st, msg = lst, lmsg
                frames = []
                for d, t in enumerate(ts):
                    before = (st, msg)
                    if not (d == 0 and name == 'ok'):
                        st, msg = treat(t, st, msg) if not (d > 0 and st == 0) else (0, 'fine')
                    if t != 'finally' and t != 'let' and before[0] and not (t == 'score' and before[0] < 32):
                        if not seen[d] or seen[d][0][0] != before[0] or (before[1] is not None and seen[d][0][1] != before[1]):
                            ctx.fail('level %d of %r sees %r, expected %r' % (d, (name, ts, style), seen[d], before))
                    frames.append((st, msg))
                same(o, st, msg, (name, ts, style))
                # every frame reported to the node what its caller then saw
                f, rep = o, []
                while True:
                    rep.append((f.status, f.result))
                    nxt = [c[3] for c in f.frame.calls if hasattr(c[3], 'frame')]
                    if not nxt or len(rep) == depth:
                        break
                    f = nxt[0]
                rep.reverse()
                if len(rep) != depth or any(r[0] != w[0] or (w[1] is not None and r[1] != w[1]) for r, w in zip(rep, frames)):
                    ctx.fail('%r: frames reported %r, expected %r' % ((name, ts, style), rep, frames))
                for d in range(1, depth):
                    if seen[d] and seen[d][0] != 'finally' and rep[d - 1][0] and seen[d][0][1] != rep[d - 1][1]:
                        ctx.fail('%r: level %d was told %r but reported %r' % ((name, ts, style), d, seen[d], rep[d - 1]))
                    if ts[d] == 'let' and rep[d - 1][0] and rep[d] != rep[d - 1]:
                        ctx.fail('%r: uncaught %r became %r' % ((name, ts, style), rep[d - 1], rep[d]))
                ctx.transitions += depth
                ctx.state(name, ts, style)
                ctx.outcome(frames)

    def answered(node, part, two):
        for st in range(part * 48, min(1101, part * 48 + 48)):
            for msg in (MSGS[:6] if not two else MSGS[:1]):
                def on_call(n, fr, info):
                    if info['method'] == 'answer' or info['method'] == '':
                        return ('reply', st, 0, msg)
                node.on_call = on_call
                for how in ('call', 'transfer', 'send') if not two else ('call',):
                    for t in itertools.product(TREAT if two else ('let', 'swallow', 'score', 'code'), repeat=2 if two else 1):
                        seen = [[], []]

                        def leaf(s):
                            def c():
                                if how == 'call':
                                    r = s.call(to_py(A3), 'answer', {})
                                    seen[0].append(('result', r))
                                elif how == 'transfer':
                                    s.icx.transfer(to_py(A3), 0)
                                elif how == 'send':
                                    seen[0].append(('send', s.icx.send(to_py(A3), 0)))
                            return apply(t[0], c, seen[0])

                        def up(s):
                            return apply(t[1], lambda: s.call(to_py(A2), 'run', {'i': 0}), seen[1])
                        ctx.case((st, msg[:9], how, t))
                        if two:
                            host.prog(0, leaf)
                            o = yield host.inv(up, i=1)
                        else:
                            o = yield host.inv(leaf)
                        ctx.transitions += 1
                        ctx.state(st, msg, how, t)
                        ctx.outcome(o.status, o.result)
                        if how == 'send':
                            if seen[0] != [('send', st == 0)] or o.status != 0:
                                ctx.fail('send with answer %d gives %r, status %d' % (st, seen[0], o.status))
                            continue
                        s1, m1 = treat(t[0], st, msg)
                        if st == 0:
                            if how == 'call' and (('result', msg) not in seen[0]):
                                ctx.fail('result %r came back as %r' % (msg, seen[0]))
                        elif t[0] not in ('let', 'finally') and (t[0] != 'score' or 32 <= st <= 999):
                            if not seen[0] or seen[0][-1] != (st, msg):
                                ctx.fail('answer (%d, %r) was seen as %r' % (st, msg, seen[0]))
                        if two:
                            if s1 > 999:
                                s1, m1 = None, None
                            else:
                                s1, m1 = treat(t[1], s1, m1) if s1 else (0, 'fine')
                        if st > 999 and (s1 is None or s1 > 999 or t[0] == 'score'):
                            if o.status > 999 or o.status < 0:
                                ctx.fail('answer %d became status %d' % (st, o.status))
                            continue
                        same(o, s1, m1, (st, how, t))
    n = run_engine(driver, setup=host.setup)
    ctx.sample(dict(unit=u))


def ic_():
    return __import__('iconservice')


_if = []


def iface():
    if not _if:
        import sys
        import types
        m = types.ModuleType('c14iface')
        exec('from iconservice import InterfaceScore, interface\nclass I(InterfaceScore):\n    @interface\n    def run(self, i: int): pass\n', m.__dict__)
        _if.append(m.I)
    return _if[0]
