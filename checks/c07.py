"""C07: nested calls run in their own context and restore the caller's context.

All call trees of bounded depth and fan-out over two (re-entrant) contracts run on the real engine; every node of the
tree observes its whole context on entry, before and after each nested call and pays priced operations in between. The
reference walks the same tree and predicts every observation, every CALL limit and every reported status and step count.
"""
import itertools

from mc import wire as W
from mc.common import Host, A1, A2, A3, EOA1, ST, to_py, from_py, attempt
from mc.node import run_engine, Invoke, Contract

TECHNIQUE = 'model checking: exhaustive enumeration of call trees on the real engine with context observation at every step, against a reference walk'
BOUNDS = dict(
    quick='all trees root+2 children over {2 contracts} x {call, interface, transfer, send} x 9 outcomes x {caught, not}; all 3-level chains with a sibling; all binary 3-level trees over 3 outcomes; every step limit at and around every charge for selected trees; all sequences of calls whose environments differ in one or two of 12 pieces',
    thorough='4-level chains, binary 3-level trees over 4 outcomes, limits for all 3-level chains')

API = 1000
COSTS = {'schema': 1, 'apiCall': API}
LIMIT = 1_000_000
HUGE = b'\0' * (32 * 10 * 1200)
OK, REVERT, OOS, EXC, EXIT, UNENC, NOMETHOD, NOTPAY, NOSCORE = range(9)
NAMES = ['ok', 'revert', 'oos', 'exc', 'exit', 'unencodable', 'nomethod', 'notpayable', 'noscore']
STYLES = ('call', 'iface', 'transfer', 'send', 'view')
OWNERS = {A1: W.addr(0, 0x0a01), A2: W.addr(1, 0x0a02)}
INFOS = [dict(timestamp=11 + i, height=21 + i, txhash=bytes([i]) * 32, index=31 + i, txfrom=W.addr(0, 41 + i),
              txtimestamp=51 + i, nonce=(None, 61 + i)[i % 2], revision=i) for i in range(3)]


# every single piece of the environment of a call changed alone
BASE = dict(INFOS[0], nonce=5, at=A1, frm=EOA1, value=0, owner=W.addr(0, 0x0a01))
VARY = [('timestamp', 12), ('height', 22), ('height', 0), ('txhash', b'\1' * 32), ('index', 32), ('index', 0), ('txfrom', W.addr(0, 99)), ('txtimestamp', 52), ('nonce', None), ('nonce', 0),
        ('nonce', 6), ('revision', 256), ('revision', 255), ('at', A2), ('frm', A2), ('frm', W.addr(1, 0xe1)), ('value', 1), ('value', 2 ** 70), ('owner', W.addr(1, 0x0a01))]


class T:
    """Node of a call tree."""
    __slots__ = ('at', 'style', 'out', 'caught', 'kids', 'i')

    def __init__(self, at, style, out, caught, kids=()):
        self.at, self.style, self.out, self.caught, self.kids = at, style, out, caught, list(kids)
        self.i = 0

    def number(self, n=0):
        self.i = n
        n += 1
        for k in self.kids:
            n = k.number(n)
        return n

    def key(self):
        return (self.at is A1, self.style, NAMES[self.out], self.caught, tuple(k.key() for k in self.kids))


def cost(k):
    # k chunks of 320 bytes
    return API + API * k


class Fail(Exception):
    def __init__(self, status, msg=None):
        self.status, self.msg = status, msg


def value_of(t):
    if t.style in ('transfer', 'send'):
        return t.i + 1
    if t.style == 'call' and t.out < NOMETHOD:
        return t.i + 100
    return 1 if t.out == NOTPAY else 0


class Ref:
    def __init__(self):
        self.log = []        # (node, point, context)
        self.calls = []      # (to, value, limit)
        self.breaks = set()

    def run(self, t, limit, sender, value, info, base=0, ro=False):
        """(status, used)"""
        used = 0
        ctx = (t.at, OWNERS[t.at], sender, value, info['txfrom'], info['txhash'], info['index'], info['txtimestamp'],
               info['nonce'], info['height'], info['timestamp'], 9 if ro else 0)

        def burn(k):
            nonlocal used
            self.breaks.add(base + used + cost(k))
            if used + cost(k) > limit:
                used = limit
                raise Fail(ST['OOS'])
            used += cost(k)
        try:
            self.log.append((t.i, 'enter', ctx))
            burn(t.i + 1)
            for k in t.kids:
                self.calls.append((A3 if k.out == NOSCORE else k.at, value_of(k), limit - used))
                if ro and value_of(k):
                    s, u = 9, 0
                elif k.out == NOMETHOD:
                    s, u = ST['METHOD'], 0
                elif k.out == NOTPAY:
                    s, u = ST['NOTPAYABLE'], 0
                elif k.out == NOSCORE:
                    s, u = ST['NOTFOUND'], 0
                else:
                    s, u = self.run(k, limit - used, t.at, value_of(k), info, base + used, ro or k.style == 'view')
                used += u
                self.log.append((t.i, 'after%d' % k.i, ctx, s))
                if s and not k.caught:
                    raise Fail(s)
                burn(1)
            if t.out == REVERT:
                raise Fail(ST['REVERT'] + t.i)
            if t.out == OOS:
                burn(1200)
            if t.out in (EXC, EXIT):
                raise Fail(ST['SYSTEM'])
            self.log.append((t.i, 'end', ctx))
            if t.out == UNENC:
                used = limit       # a result without protocol representation: charged the whole limit
                raise Fail(ST['SYSTEM'])
            return 0, used
        except Fail as f:
            return f.status, used


IFACE = '''
from iconservice import InterfaceScore, interface
class I(InterfaceScore):
    @interface
    def run(self, i: int): pass
    @interface
    def nope(self, i: int): pass
'''
_iface = {}


def iface():
    import iconservice
    if iconservice not in _iface:
        g = {'__name__': 'mc_iface'}
        exec(IFACE, g)
        _iface[iconservice] = g['I']
    return _iface[iconservice]


class Real:
    def __init__(self, host, node):
        self.host, self.node = host, node
        self.log = []

    def see(self, s):
        m, x, b = s.msg, s.tx, s.block
        from iconservice import VarDB
        w = attempt(VarDB('o', s.__dict__['_mc_db'], int).set, 1)
        c = (s.address, s.owner, m.sender, m.value, x.origin, x.hash, x.index, x.timestamp, x.nonce, s.block_height, s.now())
        if (b.height, b.timestamp) != c[9:11]:
            self.log.append('block %r' % ((b.height, b.timestamp),))
        return tuple(from_py(v) for v in c) + (0 if w[0] == 'ok' else w[1],)

    def prog(self, t):
        def p(s):
            from iconservice import sha3_256, revert
            objs = [s.create_interface_score(to_py(k.at), iface()) for k in t.kids]
            icx = s.icx
            self.log.append((t.i, 'enter', self.see(s)))
            sha3_256(b'\0' * (320 * (t.i + 1)))
            for k, obj in zip(t.kids, objs):
                st = 0
                self.host.prog(k.i, self.prog(k))
                self.host.prog(-1, self.prog(k))
                err = None
                try:
                    self.issue(s, k, obj, s.icx if k.i % 2 else icx)
                except BaseException as e:   # noqa
                    st = getattr(e, 'code', 1)
                    err = e
                if k.style == 'send':
                    st = self.sent.pop(0)
                self.log.append((t.i, 'after%d' % k.i, self.see(s), int(st)))
                if err is not None and not k.caught:
                    raise err
                sha3_256(b'\0' * 320)
            if t.out == REVERT:
                revert('r%d' % t.i, t.i)
            if t.out == OOS:
                sha3_256(HUGE)
            if t.out == EXC:
                raise ValueError('v')
            if t.out == EXIT:
                raise SystemExit('x')
            self.log.append((t.i, 'end', self.see(s)))
            if t.out == UNENC:
                return [t.i, object()]
        return p

    sent = []

    def issue(self, s, k, obj, icx):
        to = to_py(A3 if k.out == NOSCORE else k.at)
        v = value_of(k)
        if k.style == 'send':
            ok = icx.send(to, v)
            last = self.node.frames[-1].calls[-1]
            self.sent.append(last[1] if (last[1] == 0) == (ok is True) else 'send returned %r for status %d' % (ok, last[1]))
        elif k.style == 'transfer':
            icx.transfer(to, v)
        elif k.style == 'iface':
            (obj.nope if k.out == NOMETHOD else obj.run)(k.i)
        elif k.out == NOMETHOD:
            s.call(to, 'nope', {'i': k.i})
        elif k.style == 'view':
            s.call(to, 'view', {'i': k.i})
        elif k.out == NOTPAY:
            s.call(to, 'run', {'i': k.i}, 1)
        elif k.out == NOSCORE:
            s.call(to, 'run', {'i': k.i})
        else:
            s.call(to, 'pay', {'i': k.i}, v)


def leaves(outs=range(9)):
    for at in (A1, A2):
        for style in STYLES:
            for out in outs:
                if style == 'view' and out >= EXIT and (out != UNENC or at is A2):
                    continue
                if out == NOMETHOD and style not in ('call', 'iface'):
                    continue
                if out == NOTPAY and style != 'call' or out == NOSCORE and style not in ('call', 'transfer', 'send'):
                    continue
                if at is A2 and out == NOSCORE:
                    continue
                for caught in ((True,) if style == 'send' else (True, False)):
                    yield (at, style, out, caught)


def mk(leaf, *kids):
    return T(*leaf, kids)


def units(tier):
    n = len(list(leaves()))
    u = [('pair', i) for i in range(n)]
    u += [('chain', i) for i in range(n) if list(leaves())[i][2] < NOMETHOD]
    u += [('binary', i) for i in range(24)]
    u += [('limits', i) for i in range(8)]
    u += [('infos', i) for i in range(len(VARY) + 1)]
    if tier == 'thorough':
        u += [('chain4', i) for i in range(n) if list(leaves())[i][2] < NOMETHOD]
    return u


def trees(u, tier):
    L = list(leaves())
    inner = [x for x in L if x[2] < NOMETHOD]
    kind, i = u
    if kind == 'pair':
        for b in L:
            for out in ((OK, REVERT) if b is L[0] else (OK,)):
                yield T(A1, 'call', out, False, [mk(L[i]), mk(b)])
    elif kind == 'chain':
        for b in L:
            yield T(A1, 'call', OK, False, [mk(L[i], mk(b)), mk((A2, 'call', OK, False))])
            yield T(A1, 'call', OK, False, [mk(L[i], mk((A1, 'call', REVERT, True)), mk(b))])
    elif kind == 'chain4':
        for b in inner:
            if b[1] in ('call', 'transfer') and b[3]:
                for c in L:
                    yield T(A1, 'call', OK, False, [mk(L[i], mk(b, mk(c))), mk((A1, 'iface', OK, False))])
    elif kind == 'binary':
        outs = (OK, REVERT, OOS, EXC) if tier == 'thorough' else (OK, REVERT, EXC)
        styles = ('call', 'iface', 'transfer', 'send')
        k = 0
        for shape in itertools.product((A1, A2), repeat=6):
            for o in itertools.product(outs, repeat=2):
                for og in itertools.product((OK, outs[-1]), repeat=4):
                    k += 1
                    if k % 24 != i:
                        continue
                    st = [styles[(k // 24 + j) % 4] for j in range(6)]
                    g = [mk((shape[2 + j], st[2 + j], og[j], True)) for j in range(4)]
                    yield T(A1, 'call', OK, False, [mk((shape[0], st[0], o[0], True), g[0], g[1]),
                                                    mk((shape[1], st[1], o[1], True), g[2], g[3])])
    else:
        for caught in itertools.product((True, False), repeat=3):
            a, b, c = caught
            at = [(A1, A2)[i >> j & 1] for j in range(3)]
            st = [('call', 'transfer', 'iface'), ('send', 'call', 'call'), ('iface', 'iface', 'transfer')][i % 3]
            yield T(A1, 'call', OK, False, [mk((at[0], st[0], OK, a or st[0] == 'send'), mk((at[1], st[1], OK, b or st[1] == 'send'))), mk((at[2], st[2], OK, c))])


def infos(u, ctx):
    """Sequences of top-level calls whose environments differ in one piece or in two."""
    host = Host(ctx)
    host.contracts = {a: Contract(a, host.code) for a in (A1, A2)}
    one = [BASE] + [dict(BASE, **{k: v}) for k, v in VARY]
    first = one[u[1]]
    two = [dict(first, **{k: v}) for k, v in VARY]

    def driver(node):
        prev = None
        for e in [x for y in one + two for x in (first, y, BASE)]:
            for nested in (0, 1, 2):
                ctx.case((prev, e, nested))
                node.balances = {A1: 5, A2: 5}
                seen = []
                real = Real(host, node)

                def js():
                    # the revision shows in the format of JSON texts
                    from iconservice import json_dumps
                    seen.append(json_dumps({'a': 1, 'b': 2}))

                def p(s):
                    seen.append(real.see(s))
                    js()
                    if nested:
                        attempt(s.call, to_py(A1 if e['at'] is A2 else A2), 'run', {'i': 2 if nested == 1 else 3})
                        seen.append(real.see(s))
                        js()

                def q(s):
                    seen.append(real.see(s))
                    js()
                    if s.msg.sender is None or nested == 2:
                        raise ValueError('q')
                host.prog(2, q)
                host.prog(3, q)
                host.contracts[A1].owner = host.contracts[A2].owner = e['owner']
                info = {k: e[k] for k in INFOS[0]}
                o = yield host.inv(p, at=e['at'], method='pay', frm=e['frm'], value=e['value'], info=info, limit=LIMIT)
                tail = (info['txfrom'], info['txhash'], info['index'], info['txtimestamp'], info['nonce'], info['height'], info['timestamp'], 0)
                me = (e['at'], e['owner'], e['frm'], e['value']) + tail
                sub = (A1 if e['at'] is A2 else A2, e['owner'], e['at'], 0) + tail
                text = '{"a":1,"b":2}' if info['revision'] & 256 else '{"a": 1, "b": 2}'
                exp = [me, text, sub, text, me, text] if nested else [me, text]
                if o.status or real.log or seen != exp:
                    ctx.fail('context: observed %r, expected %r (%r, %r)' % (seen, exp, o.brief(), real.log))
                ctx.transitions += len(exp)
                ctx.state(repr(prev), repr(e), nested)
                prev = e
    run_engine(driver, setup=host.setup)


def unit(u, ctx):
    if u[0] == 'infos':
        return infos(u, ctx)
    host = Host(ctx)
    host.contracts = {a: Contract(a, host.code, owner=OWNERS.get(a), readonly=('view',)) for a in (A1, A2)}
    host.contracts[A3] = Contract(A3, ctx.scores.root + '/absent', owner=OWNERS[A1])

    def driver(node):
        n = 0
        for t in trees(u, ctx.tier):
            t.number()
            limits = [LIMIT]
            if u[0] == 'limits':
                r = Ref()
                r.run(t, LIMIT, EOA1, 0, INFOS[0])
                limits = sorted({max(0, b + d) for b in r.breaks for d in (-1, 0, 1)})
            for limit in limits:
                n += 1
                info = INFOS[n % 3]
                # an unexpected owner of the environment would show: alternate sender, value and transaction
                sender, value = ((EOA1, 0), (A2, 7), (W.addr(0, 0xe9), 0))[n % 3]
                ctx.case((t.key(), limit, n % 3))
                node.stores = {A1: {}, A2: {}}
                node.balances = {A1: 10 ** 6, A2: 10 ** 6}
                real, ref = Real(host, node), Ref()
                Real.sent = []
                o = yield host.inv(real.prog(t), method='pay' if value else 'run', limit=limit, costs=COSTS, info=info,
                                   frm=sender, value=value)
                exp = ref.run(t, limit, sender, value, info)
                if (o.status, o.used) != exp:
                    ctx.fail('status/steps %r, expected %r (%r)' % ((o.status, o.used), exp, o.result))
                if real.log != ref.log:
                    i = next((i for i, (a, b) in enumerate(zip(real.log, ref.log)) if a != b), min(len(real.log), len(ref.log)))
                    ctx.fail('node observes a different context\n  observed: %r\n  expected: %r' % (real.log[i:i + 1], ref.log[i:i + 1]))
                calls = sent_calls(o.frame)
                if calls != ref.calls:
                    ctx.fail('calls requested (to, value, limit): %r, expected %r' % (calls, ref.calls))
                ctx.transitions += len(ref.log)
                for x in ref.log:
                    ctx.state(t.key(), limit, x[:2])
                ctx.outcome(exp, len(ref.log))
        ctx.sample(dict(unit=u, trees=n))
    run_engine(driver, setup=host.setup)


def sent_calls(fr):
    """CALL requests of a frame and, in order, of the frames below it."""
    r = []
    kids = iter(fr.calls)
    for x in fr.trace:
        if x[0] == 'call':
            r.append((x[1]['to'], x[1]['value'], x[1]['limit']))
            k = next(kids, None)
            if k is not None and hasattr(k[3], 'frame'):
                r += sent_calls(k[3].frame)
    return r
