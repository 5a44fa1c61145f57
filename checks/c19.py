"""C19: inter-contract calls carry target, value, method and arguments faithfully.

Every combination of call style, target, amount, method, argument shape and scripted reply runs on the real engine; the
node records the requests it gets and compares each with the one the contract asked for, and the contract records what
each call gave back. Interface objects are driven through all short sequences of uses against a model of the attached
amount.
"""
import itertools

from mc import wire as W
from mc.common import Host, A1, A2, A3, EOA1, ST, to_py, from_py, code_of
from mc.node import run_engine

TECHNIQUE = 'model checking: exhaustive enumeration of call forms x replies and of sequences of interface uses on the real engine against a request model'
BOUNDS = dict(
    quick='4 call styles x 3 targets x 10 amounts x 8 methods x 24 argument shapes x 34 replies (status x reported steps around the limit x result), pairwise-complete in blocks; all sequences of <=3 over 26 interface/transfer/call uses on two interface objects, successful and failing',
    thorough='full product of targets, amounts, methods and shapes with 6 replies, sequences of <=4 over 26 uses')

IFACE = '''
from iconservice import *
class I(InterfaceScore):
    @interface
    def run(self, *a, **k): pass
    @interface
    def fallback(self, *a, **k): pass
    @interface
    def f(self, a: int = 5): return 'body'
    @interface
    def set_x(self, a, b): raise ValueError('body')
    @interface
    def on_install(self): pass
'''
LIMIT = 10_000
COSTS = {'schema': 1, 'apiCall': 1000}
METHODS = ['run', 'f', 'set_x', 'fallback', 'on_install', 'run_', 'R', '\u00e9' * 3, 'x' * 300, '', 'None', ' run']
AMOUNTS = [0, 1, 255, 256, 2 ** 63, 2 ** 64, 10 ** 30, 2 ** 255, True, False]
BAD_AMOUNTS = [None, '1', 1.0, b'\x01', [1]]
ARGS = [(), (1,), (None,), (None, None), (1, 'a', b'b'), ([1, [2]],), ({'a': {'b': 1}},), (W.addr(0, 5), True), ('.',), ((),), ({},), (-2 ** 200, '', b'')]
KWS = [{}, {'a': 1}, {'a': None}, {'b': [1, {'c': [b'x']}], 'a': True}, {'self': 1}, {'_from': W.addr(1, 6), '_value': -1}, {'.': 3}, {'x.y': ''}, {'': 0}, {'\u00e9': 'a'},
       {'params': {'.': [1]}}, {'func_name': 'run', 'amount': 7}]
BAD_ARGS = [object(), 1.5, {1: 2}, [object()], '\ud800']
RESULTS = [None, 0, -5, 2 ** 90, '', 'text', b'', b'\xff', True, W.addr(1, 9), [], {}, [1, [None, {'a': b''}]], {'a': {'b': [1, 'x']}, '': None}]


def replies(remain):
    for used in sorted({0, 1, remain - 1, remain, remain + 1, remain + 2 ** 80}):
        yield 0, used, 'r'
        for st in (1, 9, 10, 32, 40):
            yield st, used, 'failed'
    for r in RESULTS:
        yield 0, 3, r


def forms():
    """(style, target, method, args, kw, amount) in blocks that pair every value with every other"""
    out = []
    for to in (A2, A1, EOA1):
        for v in AMOUNTS:
            out += [('transfer', to, None, None, None, v), ('send', to, None, None, None, v)]
            for kw in KWS:
                out.append(('call', to, 'run', None, kw, v))
            out.append(('call', to, None, None, None, v))
            for m in METHODS:
                out.append(('call', to, m, None, {'a': 1}, v))
            for a in ARGS:
                out.append(('iface', to, 'f', a, {}, v))
            for kw in KWS[:6]:
                out.append(('iface', to, 'set_x', (), kw, v))
            for m in ('run', 'f', 'set_x', 'fallback', 'on_install'):
                out.append(('iface', to, m, (1,), {'b': 2}, v))
    for m in METHODS + [None]:
        for kw in KWS + [None]:
            out.append(('call', A2, m, None, kw, 0))
    for m in ('run', 'f', 'set_x', 'fallback', 'on_install'):
        for a in ARGS:
            for kw in KWS:
                if 'self' not in kw:
                    out.append(('iface', A3, m, a, kw, 3))
    return [f for f in out if not (f[0] == 'iface' and 'self' in f[4])]


def full():
    out = []
    for to in (A2, A1, EOA1):
        for v in AMOUNTS:
            for m in METHODS + [None]:
                for kw in KWS + [None]:
                    out.append(('call', to, m, None, kw, v))
            for m in ('run', 'f', 'set_x', 'fallback', 'on_install'):
                for a in ARGS:
                    for kw in KWS:
                        if 'self' not in kw:
                            out.append(('iface', to, m, a, kw, v))
    return out


def want_request(f, remain):
    style, to, m, args, kw, v = f
    method = '' if m in (None, 'fallback') else m
    p = plain(kw) if kw else {}
    a = [plain(x) for x in args] if args else []
    if p and a:
        p['.'] = a
    elif not p:
        p = a
    return dict(to=to, value=int(v), limit=remain, method=method, params=p)


def plain(v):
    if isinstance(v, W.Addr):
        return v
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def same_req(a, b):
    if not a['params'] and not b['params']:
        a, b = dict(a, params=[]), dict(b, params=[])
    return W.same([a['to'], a['value'], a['limit'], a['method'], a['params']], [b['to'], b['value'], b['limit'], b['method'], b['params']])


SEQ = [('icx', 0, 5), ('icx', 0, 0), ('icx', 1, 7), ('icx', 0, 2 ** 70), ('badicx', 0, -1), ('badicx', 1, 'x'), ('badicx', 0, None), ('badicx', 0, 1.5),
       ('f', 0, 0), ('f', 1, 0), ('g', 0, 0), ('kw', 0, 0), ('both', 1, 0), ('f', 0, 32), ('f', 1, 1), ('over', 0, 0), ('bad', 0, 0), ('chain', 0, 9), ('chain', 1, 1),
       ('addr', 0, 0), ('t', 3, 0), ('t', 4, 9), ('s', 6, 0), ('s', 8, 32), ('c', 0, 0), ('c', 2, 0)]
DEEP = SEQ


def units(tier):
    u = [('forms', i) for i in range(24)] + [('replies', s, m) for s in ('call', 'iface', 'transfer', 'send') for m in ('first', 'after')]
    u += [('seq', i) for i in range(len(SEQ))] + [('badamount',), ('badargs',), ('badtarget',), ('mutate',), ('modes',), ('nestedlimit',)]
    if tier == 'thorough':
        u += [('full', i) for i in range(64)] + [('deep', i, j) for i in range(len(DEEP)) for j in range(len(DEEP))]
    return u


def unit(u, ctx):
    host = Host(ctx)
    got = []
    script = []

    def on_call(node, fr, info):
        got.append(info)
        return ('reply',) + (script.pop(0) if script else (0, 0, None))

    def iface():
        import iconservice
        if not hasattr(iconservice, '_c19'):
            g = {'__name__': 'c19iface'}
            exec(IFACE, g)
            iconservice._c19 = g['I']
        return iconservice._c19

    def perform(s, f, raw=False):
        style, to, m, args, kw, v = f
        conv = (lambda x: x) if raw else to_py
        t = to_py(to)
        if style == 'call':
            k = None if kw is None else {a: conv2(b, raw) for a, b in kw.items()}
            if v == 0 and v is not False:
                return s.call(t, m, k)
            return s.call(t, m, k, v)
        if style == 'iface':
            o = s.create_interface_score(t, iface())
            if v is not False:
                o.icx(v)
            return getattr(o, m)(*[conv2(a, raw) for a in args], **{a: conv2(b, raw) for a, b in kw.items()})
        if style == 'transfer':
            return s.icx.transfer(t, v)
        return s.icx.send(t, v)

    def conv2(x, raw):
        if raw:
            return x
        if isinstance(x, tuple) and not isinstance(x, W.Addr):
            return tuple(conv2(e, raw) for e in x)
        if isinstance(x, list):
            return [conv2(e, raw) for e in x]
        if isinstance(x, dict):
            return {k: conv2(e, raw) for k, e in x.items()}
        return to_py(x)

    def attempt(fn, *a, **k):
        try:
            return 'ok', fn(*a, **k)
        except BaseException as e:   # noqa
            return 'err', code_of(e)

    def one(f, reply, pre=0, method='run'):
        """performs form f after `pre` hashes; checks request, what the contract sees and steps"""
        style = f[0]
        remain = LIMIT - 1000 * pre
        got.clear()
        script[:] = [reply]
        log = []

        def p(s):
            from iconservice import sha3_256
            for _ in range(pre):
                sha3_256(b'')
            r = attempt(perform, s, f)
            log.append((r[0], from_py(r[1])))
            return 77
        ctx.case((f, reply, pre))
        o = yield host.inv(p, method=method, limit=LIMIT, costs=COSTS)
        ctx.transitions += 1
        ctx.state(f, reply, pre)
        w = want_request(f, remain)
        if len(got) != 1 or not same_req(got[0], w):
            ctx.fail('requests %r, expected one %r' % (got, w))
        st, used, res = reply
        over = used > remain
        charged = min(used, remain)
        if style == 'send':
            exp = ('ok', st == 0 and not over)
        elif over:
            exp = ('err', None)
        elif st:
            exp = ('err', st)
        else:
            exp = ('ok', None if style == 'transfer' else res)
        ok = len(log) == 1 and log[0][0] == exp[0] and (exp[1] is None and exp[0] == 'err' or W.same(log[0][1], exp[1]))
        if not ok:
            ctx.fail('%r answered %r gives the contract %r, expected %r' % (f, reply, log, exp))
        if (o.status, o.used, o.result) != (0, 1000 * pre + charged, 77):
            ctx.fail('result %r, expected %d steps' % (o.brief(), 1000 * pre + charged))
        ctx.outcome(exp[0], charged)

    def seq_run(seq):
        """all uses in one call"""
        got.clear()
        script.clear()
        want, exp, log = [], [], []
        amount = [0, 0]
        remain = LIMIT
        objs_to = [A2, A3]
        for op in seq:
            k, o, x = op
            if k == 'icx':
                amount[o] = x
                exp.append(('ok', 'self'))
            elif k == 'badicx':
                exp.append(('err', ST['PARAM']))
            elif k == 'addr':
                exp.append(('ok', objs_to[o]))
            elif k in ('f', 'g', 'kw', 'both', 'over', 'chain', 'bad'):
                if k == 'chain':
                    amount[o] = x
                v, amount[o] = amount[o], 0
                if k == 'bad':
                    exp.append(('err', None))
                    continue
                m, p = {'f': ('f', [1]), 'g': ('run', []), 'kw': ('set_x', {'a': 1, 'b': 'z'}), 'both': ('set_x', {'b': 2, '.': [1]}), 'over': ('f', [2]), 'chain': ('f', [3])}[k]
                want.append(dict(to=objs_to[o], value=v, limit=remain, method=m, params=p))
                st = x if k == 'f' else 0
                used = 100 + len(want)
                if k == 'over':
                    used = remain + 1
                script.append((st, used, 'r%d' % len(want)))
                exp.append(('err', None) if used > remain else ('err', st) if st else ('ok', 'r%d' % len(want)))
                remain -= min(used, remain)
            else:
                want.append(dict(to=EOA1, value=o, limit=remain, method='', params=[]) if k in 'ts' else dict(to=A3, value=o, limit=remain, method='run', params={'i': 1}))
                used = 10
                over = used > remain
                script.append((x, used, None))
                bad = over or x
                exp.append(('ok', not bad) if k == 's' else (('err', None) if over else ('err', x)) if bad else ('ok', None))
                remain -= min(used, remain)

        def p(s):
            objs = [s.create_interface_score(to_py(a), iface()) for a in objs_to]
            for k, o, x in seq:
                if k == 'icx':
                    r = attempt(objs[o].icx, x)
                    r = (r[0], 'self' if r[1] is objs[o] else r[1])
                elif k == 'badicx':
                    r = attempt(objs[o].icx, x)
                elif k == 'addr':
                    r = attempt(lambda: objs[o].addr_to)
                elif k == 'f':
                    r = attempt(objs[o].f, 1)
                elif k == 'g':
                    r = attempt(objs[o].run)
                elif k == 'kw':
                    r = attempt(objs[o].set_x, b='z', a=1)
                elif k == 'both':
                    r = attempt(objs[o].set_x, 1, b=2)
                elif k == 'over':
                    r = attempt(objs[o].f, 2)
                elif k == 'bad':
                    r = attempt(objs[o].f, object())
                elif k == 'chain':
                    r = attempt(lambda: objs[o].icx(x).f(3))
                elif k == 't':
                    r = attempt(s.icx.transfer, to_py(EOA1), o)
                elif k == 's':
                    r = attempt(s.icx.send, to_py(EOA1), o)
                else:
                    r = attempt(s.call, to_py(A3), 'run', {'i': 1}, o)
                log.append((r[0], from_py(r[1])))
        ctx.case(seq)
        o = yield host.inv(p, limit=LIMIT, costs=COSTS)
        ctx.transitions += len(seq)
        ctx.state(seq)
        if len(got) != len(want) or any(not same_req(a, b) for a, b in zip(got, want)):
            ctx.fail('%r sends %r, expected %r' % (seq, got, want))
        if len(log) != len(exp) or any(l[0] != e[0] or (e[1] is not None and l[1] != e[1]) for l, e in zip(log, exp)):
            ctx.fail('%r gives %r, expected %r' % (seq, log, exp))
        if (o.status, o.used) != (0, LIMIT - remain):
            ctx.fail('%r: result %r, expected %d steps' % (seq, o.brief(), LIMIT - remain))
        ctx.outcome(tuple(amount), remain, len(want))

    def local(fn, what, status=None):
        """an attempt that fails in the contract without any request, and costs nothing"""
        got.clear()
        log = []

        def p(s):
            log.append(attempt(fn, s))
            return 77
        ctx.case(what)
        o = yield host.inv(p, limit=LIMIT, costs=COSTS)
        ctx.transitions += 1
        ctx.state(what)
        if got or log[0][0] != 'err' or (status and log[0][1] != status) or (o.status, o.used, o.result) != (0, 0, 77):
            ctx.fail('%r gives %r, requests %r, result %r' % (what, log, got, o.brief()))
        ctx.outcome(what, log[0][1])

    def driver(node):
        node.on_call = on_call
        k = u[0]
        if k in ('forms', 'full'):
            fs = forms() if k == 'forms' else full()
            n = 24 if k == 'forms' else 64
            for f in fs[u[1]::n]:
                for reply in ((0, 5, ['r', 1]), (32, 6, 'm')) if k == 'forms' else ((0, 0, None), (0, LIMIT, {'a': 1}), (0, LIMIT + 1, 1), (1, 0, None), (40, LIMIT, 'x'), (10, LIMIT + 1, '')):
                    yield from one(f, reply)
        elif k == 'replies':
            for f in [f for f in forms() if f[0] == u[1]][:: 29 if u[1] in ('call', 'iface') else 7]:
                for pre in ((0,) if u[2] == 'first' else (1, 3, 10)):
                    for r in replies(LIMIT - 1000 * pre):
                        if r[1] >= 0:
                            yield from one(f, r, pre)
        elif k == 'seq':
            for n in range(0, 3):
                for rest in itertools.product(SEQ, repeat=n):
                    yield from seq_run((SEQ[u[1]],) + rest)
        elif k == 'deep':
            for rest in itertools.product(DEEP, repeat=2):
                yield from seq_run((DEEP[u[1]], DEEP[u[2]]) + rest)
        elif k == 'badamount':
            for v in BAD_AMOUNTS:
                for f in (('call', A2, 'run', None, {'a': 1}, v), ('call', A2, None, None, None, v), ('transfer', A2, None, None, None, v)):
                    yield from local(lambda s, f=f: perform(s, f), f)
                yield from local(lambda s, v=v: perform(s, ('iface', A2, 'f', (1,), {}, v)), ('iface', v), ST['PARAM'])
                got.clear()
                log = []
                o = yield host.inv(lambda s, v=v: log.append(s.icx.send(to_py(A2), v)) or 77)
                if got or log != [False] or o.result != 77:
                    ctx.fail('send of %r gives %r, requests %r' % (v, log, got))
        elif k == 'badargs':
            for a in BAD_ARGS:
                for f in (('call', A2, 'run', None, {'a': a}, 0), ('call', A2, 'run', None, {'b': 1, 'a': [a]}, 5), ('iface', A2, 'f', (a,), {}, 1), ('iface', A2, 'f', (1, a), {'x': 1}, 1), ('iface', A2, 'f', (), {'x': [[a]]}, 1)):
                    yield from local(lambda s, f=f: perform(s, f, True), f[:3] + (repr(type(a)), f[5], len(repr(f[3:5])) if 'object' not in repr(a) else 0))
                    # and a good call after it works
                    yield from one(('iface', A2, 'f', (1,), {}, 2), (0, 4, 'r'))
        elif k == 'badtarget':
            for t in ('cx' + '0' * 40, b'\1' + b'\0' * 20, 5, b''):
                for i, fn in enumerate((lambda s: s.call(t, 'run', {}), lambda s: s.icx.transfer(t, 1), lambda s: s.create_interface_score(t, iface()).f(1))):
                    yield from local(fn, (repr(t), i))
            yield from local(lambda s: s.create_interface_score(None, iface()).f(1), 'none', ST['FORMAT'])
            yield from local(lambda s: s.create_interface_score(to_py(A2), __import__('iconservice').InterfaceScore), 'base class', ST['INSTANCE'])
            yield from local(lambda s: iface().f(5, 1), 'self', ST['INSTANCE'])
            yield from local(lambda s: s.create_interface_score(to_py(A2), iface()).nothing(), 'nothing')
        elif k == 'mutate':
            # arguments are those at the time of the call, and are left alone
            for kw in KWS:
                d = conv2(kw, False)

                def p(s):
                    s.call(to_py(A2), 'run', d)
                    d['late'] = 1
                    s.call(to_py(A2), 'run', d)
                    o = s.create_interface_score(to_py(A3), iface())
                    d2 = {a: b for a, b in d.items() if a != 'self'}
                    o.f([1], **d2)
                    o.f([1], **d2)
                    return len(d)
                got.clear()
                ctx.case(kw)
                o = yield host.inv(p, limit=LIMIT, costs=COSTS)
                ctx.transitions += 4
                ctx.state(kw)
                late = dict(plain(kw), late=1)
                d2 = dict({a: b for a, b in late.items() if a != 'self'})
                d2['.'] = [[1]]
                w = [plain(kw) or [], late, d2, d2]
                if [x['params'] or [] for x in got] != w or from_py(d) != dict(kw, late=1) or o.result != len(kw) + (0 if 'late' in kw else 1):
                    ctx.fail('%r: requests %r, expected %r; dict is now %r' % (kw, [x['params'] for x in got], w, d))
        elif k == 'modes':
            # the request is the same in every mode; permission is the node's matter
            for f in forms()[::17]:
                for method in ('run', 'pay', 'view', 'on_install', 'on_update'):
                    yield from one(f, (0, 5, 'r'), 1, method=method)
                    yield from one(f, (9, 5, 'denied'), 1, method=method)
        elif k == 'nestedlimit':
            # real callees: limits handed down a chain with hashes in between
            node.on_call = None
            for plan in itertools.product((0, 1, 2, 3), repeat=3):
                for style in itertools.product(('call', 'iface'), repeat=2):
                    def level(d):
                        def p(s):
                            from iconservice import sha3_256
                            for _ in range(plan[d]):
                                sha3_256(b'')
                            if d < 2:
                                host.prog(d + 1, level(d + 1))
                                t = to_py((A2, A3)[d])
                                if style[d] == 'call':
                                    return s.call(t, 'run', {'i': d + 1})
                                return s.create_interface_score(t, iface()).run(d + 1)
                            return 'bottom'
                        return p
                    ctx.case((plan, style))
                    o = yield host.inv(level(0), limit=LIMIT, costs=COSTS)
                    ctx.transitions += 3
                    ctx.state(plan, style)
                    c1 = o.frame.calls[0]
                    want = [LIMIT - 1000 * plan[0], LIMIT - 1000 * (plan[0] + plan[1])]
                    lim = [c1[0]['limit'], c1[3].frame.calls[0][0]['limit']] if o.status == 0 else None
                    if o.status or o.result != 'bottom' or lim != want or o.used != 1000 * sum(plan):
                        ctx.fail('%r: limits %r expected %r, result %r' % (plan, lim, want, o.brief()))
                    ctx.outcome(want)

    run_engine(driver, setup=host.setup)
    ctx.sample(dict(unit=repr(u)))
