"""C03: typed values survive storage and the protocol unchanged.

Every value of a bounded universe is sent through every place a value crosses the protocol of the real engine; wire
bytes are produced and checked by an independent codec (mc/wire.py).
"""
import itertools

from mc import wire as W, host
from mc.common import A1, A2, A3, EOA1, ST, to_py, from_py, attempt, seqs
from mc.node import Contract, Invoke, run_engine, Problem

TECHNIQUE = 'explicit-state model checking: exhaustive enumeration of values through every protocol crossing of the real engine, against an independent codec'
BOUNDS = dict(
    quick='integers around +-2^k for every k<=264 and 512,520; 60+ scalars; all lists/maps of width<=2 over 11 scalars nested to depth 2 (and over representative pairs to depth 3); nesting 1..260,511..1100 for failure containment; argument, result, nested argument, nested result, storage, balance and transaction info',
    thorough='as quick with width<=3 at depth 1, every pair of 23 second-level values, byte-wise transport')

SRC = '''
import mchost
from iconservice import IconScoreBase, external, payable, Address

class Score(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self.__dict__['_mc_db'] = db
    def on_install(self): pass
    def on_update(self): pass
    @external
    def echo(self, x):
        mchost.seen.append(x)
        return x
    @external
    def two(self, x, y):
        mchost.seen.append((x, y))
        return [x, y]
    @external
    def run(self, i: int):
        return mchost.programs[i](self)
'''
EMOJI = '\U0001f600'


def ints():
    r = set()
    for k in list(range(0, 265)) + [511, 512, 513, 519, 520]:
        for d in (-1, 0, 1):
            r |= {2 ** k + d, -2 ** k + d}
    return sorted(r)


SCALARS = [None, True, False, 0, 1, -1, 127, 128, 255, -128, -129, '', 'a', '1', 'hx' + '0' * 40, '\u00e9', EMOJI, '\u0000', 'x' * 31, 'x' * 32,
           'x' * 255, 'x' * 256, 'x' * 65536, b'', b'\x00', b'\x01', b'\xff', b'\x80', b'a', b'x' * 31, b'x' * 32, b'x' * 255, b'x' * 256,
           b'x' * 65536, b'\xc3\xa9', b'\xff\xfe', W.addr(0, 0), W.addr(1, 0), W.addr(0, 2 ** 160 - 1), W.addr(1, 2 ** 160 - 1), [], {}]
BIG = [c * n for c in ('x', b'x') for n in (2 ** 16 - 1, 2 ** 20 - 1, 2 ** 20, 2 ** 20 + 1, 3 * 2 ** 20, 10 * 2 ** 20, 10 * 2 ** 20 + 1, 33 * 10 ** 6)] + [[n % 5 if n % 2 else None for n in range(m)] for m in (255, 256, 2 ** 16 - 1, 2 ** 16, 70000)] + \
    [{'%d' % n: n % 3 for n in range(m)} for m in (255, 2 ** 16 - 1, 2 ** 16, 40000)] + [['y' * 2 ** 19] * 3, {'k': b'y' * 2 ** 20, 'l': 'z' * 2 ** 20}]
CORE = [None, True, False, 0, -1, 300, '', '\u00e9', b'', b'\x01', W.addr(1, 7)]
BADS = ['1.5', '{1}', 'bytearray(b"a")', 'object()', '1j', 'range(2)', '(x for x in [1])', 'memoryview(b"a")', '{1: 2}', '{None: 1}', '{b"a": 1}',
        '[1, [1.5]]', '{"a": {"b": {1}}}', '(1, 2, 1.5)', '{"k": [object()]}', 'int', 'len', '"\\ud800"', '["\\udfff"]', '{"\\ud800": 1}', 'float("nan")',
        'NotImplemented', '...']


def level1(w):
    r = []
    for n in range(0, w + 1):
        for c in itertools.product(CORE, repeat=n):
            r.append(list(c))
            r.append(dict(zip(('', 'k', '\u00e9'), c)))
    return r


def level2(tier):
    sub = [[None], [True, 1], [b'a', 'a'], {'k': None}, {'k': False, '': 0}, [], {}, [W.addr(0, 9)], {'\u00e9': [1]}, 0, 'z', None]
    if tier == 'thorough':
        sub += [[[]], {'a': {}}, {'a': {'b': [None]}}, [b'', ''], [-1], [{}], {'': ''}, {'1': 1}, True, b'q', [[[[[1]]]]]]
    r = []
    for a in sub:
        r += [[a], {'k': a}]
        for b in sub:
            r += [[a, b], {'a': a, 'b': b}]
    r2 = []
    for x in r[::3]:
        r2 += [[x], {'q': x}, [1, x, None]]
    return r + r2


def universe(tier):
    r = [('int', x) for x in ints()] + [('scalar', x) for x in SCALARS]
    r += [('l1', x) for x in level1(2 if tier == 'quick' else 3)]
    r += [('l2', x) for x in level2(tier)]
    return [x for _, x in r] + BIG


def plain(v):
    """What the receiver must hold: tuples do not survive, they become lists."""
    if isinstance(v, W.Addr):
        return v
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


N = 12


def units(tier):
    u = [('echo', i) for i in range(N)] + [('nested', i) for i in range(N)] + [('store', i) for i in range(4)]
    u += [('info',), ('bad',), ('deep', 0), ('deep', 1), ('tuple',), ('balance',)]
    if tier == 'thorough':
        u += [('bytewise', i) for i in range(N)]
    return u


def unit(u, ctx):
    h = host.install()
    h.seen = []
    code = ctx.scores.make(SRC)
    cs = {a: Contract(a, code) for a in (A1, A2, A3)}
    vals = universe(ctx.tier)

    def setup(node):
        node.contracts = dict(cs)

    def eq(what, got, want):
        if not W.same(got, want):
            ctx.fail('%s: expected %s, got %s' % (what, sh(want), sh(got)))

    def echo(node):
        part = vals[u[1]::N]
        for v in part:
            ctx.case(('echo', v if len(repr(v)) < 500 else repr(v)[:500]))
            h.seen.clear()
            o = yield Invoke(cs[A1], 'echo', [v])
            if o.status != 0:
                ctx.fail('echo of %s failed: %r' % (sh(v), o.brief()))
            eq('argument', from_py(h.seen[0] if h.seen else 'not called'), v)
            if has_tuple(h.seen):
                ctx.fail('argument changed list/tuple type')
            eq('result', o.result, v)
            if o.raw is not None and not W.same(norm(o.raw), norm(W.any_enc(v))):
                ctx.fail('result bytes %r differ from canonical %r' % (sh(o.raw), sh(W.any_enc(v))))
            ctx.state('v', repr(v))
            ctx.transitions += 1
            h.seen.clear()
            o = yield Invoke(cs[A1], 'two', [v, [v]])
            eq('two arguments', from_py(list(h.seen[0]) if h.seen else 'not called'), [v, [v]])
            eq('result', o.result, [v, [v]])
        ctx.sample(dict(values=len(part), last=sh(part[-1])))

    def nested(node):
        part = vals[u[1]::N]
        for v in part:
            ctx.case(('nested', repr(v)[:500]))
            h.seen.clear()
            got = []

            def prog(s):
                got.append(attempt(lambda: iface(s, A2, to_py(v))))
            # positional, through an interface
            h.programs[0] = prog
            o = yield Invoke(cs[A1], 'run', [0])
            if o.status:
                ctx.fail('caller failed: %r' % (o.brief(),))
            call = [t[1] for t in o.frame.trace if t[0] == 'call']
            if len(call) != 1:
                ctx.fail('%d CALL messages: %r' % (len(call), got))
                continue
            eq('CALL params', call[0]['params'], [v])
            eq('callee argument', from_py(h.seen[0] if h.seen else 'not called'), v)
            eq('result in the caller', list(got[0]), ['ok', v])
            # keyword parameters and direct nested result from the node
            got.clear()

            def prog2(s):
                got.append(attempt(s.call, to_py(A3), 'm', {'p': to_py(v), 'q': [to_py(v)]}))
            h.programs[0] = prog2
            calls = []

            def on_call(nd, fr, info):
                calls.append(info)
                return ('reply', 0, 0, v)
            node.on_call = on_call
            o = yield Invoke(cs[A1], 'run', [0])
            node.on_call = None
            if o.status or len(calls) != 1:
                ctx.fail('keyword call: %r calls=%d' % (o.brief(), len(calls)))
                continue
            eq('CALL keyword params', calls[0]['params'], {'p': v, 'q': [v]})
            eq('result from the node', list(got[0]), ['ok', v])
            ctx.transitions += 2
            ctx.state('n', repr(v))

    def store(node):
        from iconservice import VarDB, DictDB, ArrayDB, Address
        T = dict(int=int, str=str, bytes=bytes, bool=bool, Address=Address)
        per = dict(int=ints() + [True, False], str=[x for x in vals if isinstance(x, str)] + [chr(c) for c in range(0, 0x300, 7)] + ['\uffff', '\U0010ffff'],
                   bytes=[x for x in vals if isinstance(x, bytes)] + [bytes([i]) for i in range(256)] + [bytes([0] * i) for i in range(1, 40)],
                   bool=[True, False], Address=[x for x in vals if isinstance(x, W.Addr)] + [W.Addr(k, bytes([0] * i + [255] + [0] * (19 - i))) for k in (0, 1) for i in range(20)])
        types = list(per)
        enc = lambda x: x.raw if isinstance(x, W.Addr) else W.int_enc(int(x)) if isinstance(x, int) else x.encode() if isinstance(x, str) else x
        for t in types:
            dflt = {'int': 0, 'str': '', 'bool': False}.get(t)
            todo = per[t][u[1]::4]
            for lo in range(0, len(todo), 40):
                part = todo[lo:lo + 40]
                ctx.case(('store', t, lo))
                got = []

                def w(s):
                    for i, v in enumerate(part):
                        VarDB('v%d' % i, s.db, T[t]).set(to_py(v))
                        DictDB('d', s.db, T[t])[i] = to_py(v)
                        ArrayDB('a', s.db, T[t]).put(to_py(v))

                def r(s):
                    a = ArrayDB('a', s.db, T[t])
                    for i, v in enumerate(part):
                        got.append((from_py(VarDB('v%d' % i, s.db, T[t]).get()), from_py(DictDB('d', s.db, T[t])[i]), from_py(a[i]), from_py(a.get(i))))
                node.stores = {}
                h.programs.update({0: w, 1: r})
                o = yield Invoke(cs[A1], 'run', [0])
                if o.status:
                    ctx.fail('writing: %r' % (o.brief(),))
                written = [x[2] for x in o.frame.trace if x[0] == 'set']
                sizes = [W.int_enc(i + 1) for i in range(len(part))]
                want = sorted([enc(v) for v in part] * 3 + sizes)
                if sorted(x for x in written if x is not None) != want:
                    ctx.fail('stored bytes of %s values differ: %r want %r' % (t, sh(sorted(x or b'' for x in written)), sh(want)))
                o = yield Invoke(cs[A1], 'run', [1])
                if o.status:
                    ctx.fail('reading: %r' % (o.brief(),))
                for v, g in zip(part, got):
                    x = dflt if v in ('', b'') else int(v) if t == 'int' else v
                    for y in g:
                        eq('stored %s %s' % (t, sh(v)), y, x)
                    ctx.state('s', t, repr(v))
                ctx.transitions += len(part)

    def info(node):
        got = []

        def prog(s):
            got.append(from_py([s.tx.hash, s.tx.index, s.tx.origin, s.tx.timestamp, s.tx.nonce, s.block.height, s.block.timestamp, s.now(), s.block_height,
                                s.msg.sender, s.msg.value, s.owner, s.address, s.get_owner(s.address)]))
        h.programs[0] = prog
        base = dict(txhash=b'\x07' * 32, index=1, txfrom=EOA1, txtimestamp=5, nonce=None, height=9, timestamp=11, revision=0)
        menu = dict(txhash=[b'\x00' * 32, b'\xff' * 32, None], index=[0, 127, 128, 255, 2 ** 31], txfrom=[EOA1, A3, None],
                    txtimestamp=[0, -1, 2 ** 63, 1_600_000_000_000_000], nonce=[None, 0, 1, -1, 2 ** 64, 2 ** 128],
                    height=[0, 1, 2 ** 31, 2 ** 63], timestamp=[0, 127, 128, 2 ** 63, 2 ** 64], revision=[0, 1, 256, 2 ** 40 - 1])
        for a, b in itertools.combinations(menu, 2):
            for x, y in itertools.product(menu[a], menu[b]):
                i = dict(base, **{a: x, b: y})
                for frm, val, own in ((EOA1, 0, A2), (A2, 2 ** 100, EOA1), (None, 0, W.addr(0, 3))):
                    ctx.case(('info', a, x, b, y, frm))
                    got.clear()
                    c = Contract(A1, code, owner=own)
                    o = yield Invoke(c, 'run', [0], frm=frm, value=0, info=i)
                    want = [i['txhash'], i['index'], i['txfrom'], i['txtimestamp'], i['nonce'], i['height'], i['timestamp'], i['timestamp'], i['height'],
                            frm, 0, own, A1, own]
                    if o.status:
                        ctx.fail('info: %r' % (o.brief(),))
                    eq('transaction information', got[0] if got else None, want)
                    ctx.transitions += 1
                    ctx.state('i', repr((i, frm)))

    def bad(node):
        for src in BADS:
            mk = eval('lambda: ' + src)
            ctx.case(('bad', src))
            h.programs[0] = lambda s: mk()
            o = yield Invoke(cs[A1], 'run', [0])
            if o.status == 0:
                ctx.fail('result %s was accepted as %r' % (src, o.result))
            elif o.status != 1:
                ctx.note('status %d' % o.status)
            got = []
            for style in ('pos', 'kw', 'mixed'):
                got = []

                def prog(s):
                    def go():
                        if style == 'pos':
                            return iface(s, A2, mk())
                        if style == 'kw':
                            return s.call(to_py(A2), 'echo', {'x': mk()})
                        return iface(s, A2, [1, mk()])
                    got.append(attempt(go))
                    return 'after'
                h.programs[0] = prog
                h.seen.clear()
                o = yield Invoke(cs[A1], 'run', [0])
                if not got or got[0][0] != 'err' or h.seen or any(t[0] == 'call' for t in o.frame.trace):
                    ctx.fail('nested argument %s (%s) was not refused: %r %r' % (src, style, got, o.brief()))
                if o.status or o.result != 'after':
                    ctx.fail('caller after a refused argument: %r' % (o.brief(),))
            got = []

            def st(s):
                from iconservice import VarDB, DictDB, ArrayDB
                for f in (lambda: VarDB('x', s.db, int).set(mk()), lambda: DictDB('x', s.db, int).__setitem__('k', mk()), lambda: ArrayDB('x', s.db, int).put(mk())):
                    got.append(attempt(f))
                return 'after'
            node.stores = {}
            h.programs[0] = st
            o = yield Invoke(cs[A1], 'run', [0])
            if [g[0] for g in got] != ['err'] * 3 or o.status or any(node.stores.get(A1, {}).values()):
                ctx.fail('storing %s: %r %r %r' % (src, got, o.brief(), node.stores))
            o = yield Invoke(cs[A1], 'echo', [[src]])
            eq('engine after a refused value', o.result, [src])
            ctx.transitions += 6
            ctx.state('bad', src)

    def deep(node):
        kind = u[1]
        mk = (lambda n: nest_l(n)) if kind == 0 else (lambda n: nest_d(n))
        ns = list(range(1, 30)) + list(range(30, 260, 7)) + list(range(245, 262)) + [300, 400, 505, 511, 512, 520, 700, 1000, 1100, 5000]
        first_bad = {}
        for n in ns:
            ctx.case(('deep', kind, n))
            h.programs[0] = lambda s: mk(n)
            o = yield Invoke(cs[A1], 'run', [0])
            same = o.status == 0 and depth(o.result) == n
            if o.status == 0 and not same:
                ctx.fail('nesting %d came back as %d' % (n, depth(o.result)))
            if o.status and n <= (200, 120)[kind]:
                ctx.fail('nesting %d refused: %r' % (n, o.brief()))
            ctx.outcome(n, o.status == 0)
            got = []

            def prog(s):
                r = attempt(lambda: iface(s, A2, mk(n)))
                got.append((r[0], depth(r[1]) if r[0] == 'ok' else None))
                return 'after'
            h.programs[0] = prog
            o = yield Invoke(cs[A1], 'run', [0])
            if o.status or o.result != 'after':
                ctx.fail('caller passing nesting %d: %r' % (n, o.brief()))
            elif got[0] != ('ok', n) and (got[0][0] == 'ok' or n <= (200, 120)[kind]):
                ctx.fail('nested argument of depth %d: %r' % (n, got))
            o = yield Invoke(cs[A1], 'echo', [5])
            eq('engine after nesting %d' % n, o.result, 5)
            ctx.transitions += 3
            ctx.state('deep', kind, n)

    def tuples(node):
        for v in [(), (1,), (1, (2, None)), [(1,), {'k': (b'a',)}], {'k': ()}, ((),)]:
            ctx.case(('tuple', v))
            h.programs[0] = lambda s: v
            o = yield Invoke(cs[A1], 'run', [0])
            eq('tuple result', o.result, plain(v))
            got = []

            def prog(s):
                got.append(attempt(lambda: iface(s, A2, v)))
            h.programs[0] = prog
            o = yield Invoke(cs[A1], 'run', [0])
            eq('tuple argument', list(got[0]), ['ok', plain(v)])
            ctx.transitions += 2

    def balance(node):
        for v in [x for x in ints() if x >= 0]:
            ctx.case(('balance', v))
            got = []
            node.balances = {EOA1: v, A1: v + 1}

            def prog(s):
                got.append(s.icx.get_balance(to_py(EOA1)))
                got.append(s.icx.get_balance(s.address))
                got.append(s.icx.get_balance(to_py(A3)))
            h.programs[0] = prog
            o = yield Invoke(cs[A1], 'run', [0])
            eq('balance', got, [v, v + 1, 0])
            got.clear()

            def prog2(s):
                got.append(s.msg.value)
            h.programs[0] = prog2
            ctx.transitions += 1
            ctx.state('b', v)

    drv = dict(echo=echo, nested=nested, store=store, info=info, bad=bad, deep=deep, tuple=tuples, balance=balance, bytewise=echo)[u[0]]
    run_engine(drv, setup=setup, chunk=(lambda avail, n: 1) if u[0] == 'bytewise' else None)


_if = {}


def iface(score, addr, v):
    """Positional nested call through an interface score."""
    from iconservice import InterfaceScore, interface
    if InterfaceScore not in _if:
        g = dict(InterfaceScore=InterfaceScore, interface=interface)
        exec('class Echo(InterfaceScore):\n    @interface\n    def echo(self, x):\n        pass\n', g)
        _if[InterfaceScore] = g['Echo']
    return score.create_interface_score(to_py(addr), _if[InterfaceScore]).echo(v)


def nest_l(n):
    v = 1
    for _ in range(n):
        v = [v]
    return v


def nest_d(n):
    v = 1
    for _ in range(n):
        v = {'k': v}
    return v


def depth(v):
    n = 0
    while isinstance(v, (list, dict)) and len(v) == 1:
        v = v[0] if isinstance(v, list) else v['k']
        n += 1
    return n if v == 1 else -1


def has_tuple(v):
    if isinstance(v, tuple):
        return True
    if isinstance(v, list):
        return any(has_tuple(x) for x in v)
    if isinstance(v, dict):
        return any(has_tuple(x) for x in v.values())
    return False


def norm(x):
    if isinstance(x, (list, tuple)):
        return [norm(e) for e in x]
    if isinstance(x, dict):
        return {(k.decode() if isinstance(k, bytes) else k): norm(v) for k, v in x.items()}
    return x


def sh(x):
    r = repr(x)
    return r if len(r) < 300 else r[:200] + '...%d' % len(r)
