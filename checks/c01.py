"""C01: storage collections behave as variable / map / list.

Explicit-state search over the real engine: a state is (reference model state, actual store); every operation of the
alphabet is run from every reachable state in an invocation of its own, and all operation sequences up to a bound are
additionally run inside single invocations through two handles to the same collection. Oracle: Python values.
"""
import itertools

from mc import wire as W
from mc.common import Host, A1, A2, attempt, to_py, ST
from mc.node import Invoke, run_engine, Problem

BOUNDS = dict(
    quick='all reachable states of each configuration (variables over 5 types with 9+ values; maps with <=3 keys x 2 values, depth 1..3; lists up to length 3; three collections of one name x 2 contracts) x every operation; all in-call sequences of length <=3 over two handles; list sizes across 127/128/255/256',
    thorough='as quick with lists up to length 5, mixed configuration with lists up to 2 per contract, in-call sequences up to length 4')

AD = [W.addr(0, 5), W.addr(1, 5), W.addr(0, 0)]
VALS = {
    'int': [0, 1, -1, 127, 128, -128, -129, 255, 256, -32768, 2 ** 63, -2 ** 63 - 1, 2 ** 255, 10 ** 30],
    'str': ['', 'a', '\u00e9', 'x' * 200, '\u0000', '0'],
    'bytes': [b'', b'\x00', b'\x01\x02', b'\xff' * 100],
    'bool': [False, True],
    'Address': AD,
}
DEFAULT = {'int': 0, 'str': '', 'bool': False, 'bytes': None, 'Address': None}
SMALL = {'int': [1, -300], 'str': ['a', 'zz'], 'bytes': [b'\x00', b'q'], 'bool': [True, False], 'Address': AD[:2]}
BAD = [None, 1.5, [1], {}, object]


def ty(name):
    from iconservice import Address
    return dict(int=int, str=str, bytes=bytes, bool=bool, Address=Address)[name]


def ekey(k):
    if isinstance(k, W.Addr):
        return k.raw
    if isinstance(k, int):
        return W.int_enc(k)
    if isinstance(k, str):
        return k.encode()
    return k


def empty(v):
    return v == '' or v == b''


# ---------------------------------------------------------------- reference model -------------------------------
class Model:
    """State: dict (addr, kind, name) -> value: var: value or None; map: {path: value}; list: list."""

    def __init__(self, st=()):
        self.st = {k: (dict(v) if k[1] == 'd' else list(v) if k[1] == 'a' else v) for k, v in st}

    def canon(self):
        r = []
        for k in sorted(self.st, key=repr):
            v = self.st[k]
            r.append((k, tuple(sorted(v.items(), key=repr)) if k[1] == 'd' else tuple(v) if k[1] == 'a' else v))
        return tuple(r)

    def apply(self, addr, op):
        """op = (kind, name, type, depth, verb, args...) -> expected result"""
        kind, name, t, depth, verb = op[:5]
        a = op[5:]
        key = (addr, kind, ekey(name))
        if kind == 'v':
            if verb == 'get':
                v = self.st.get(key)
                return ('ok', DEFAULT[t] if v is None else v)
            if verb == 'set':
                if a[0] in BAD_SET:
                    return ('err', ST['PARAM'])
                self.st[key] = None if empty(a[0]) else cast(t, a[0])
                return ('ok', None)
            if verb == 'remove':
                self.st[key] = None
                return ('ok', None)
        if kind == 'd':
            m = self.st.setdefault(key, {})
            if verb == 'iter':
                return ('err', ST['CONTAINER'])
            path, rest = a[0], a[1:]
            if any(p in BAD_SET for p in path):
                return ('err', ST['PARAM'])
            p = tuple(ekey(x) for x in path)
            if len(p) != depth:
                return ('err', ST['CONTAINER'])
            if verb == 'get':
                return ('ok', m.get(p, DEFAULT[t]))
            if verb == 'in':
                return ('ok', p in m)
            if verb == 'set':
                if rest[0] in BAD_SET:
                    return ('err', ST['PARAM'])
                if empty(rest[0]):
                    m.pop(p, None)
                else:
                    m[p] = cast(t, rest[0])
                return ('ok', None)
            if verb in ('del', 'remove'):
                m.pop(p, None)
                return ('ok', None)
        if kind == 'a':
            m = self.st.setdefault(key, [])
            rd = lambda v: DEFAULT[t] if empty(v) else v
            if verb == 'put':
                if a[0] in BAD_SET:
                    return ('err', ST['PARAM'])
                m.append(cast(t, a[0]))
                return ('ok', None)
            if verb == 'pop':
                return ('ok', rd(m.pop()) if m else None)
            if verb == 'len':
                return ('ok', len(m))
            if verb in ('get', 'getitem', 'setitem'):
                i = a[0]
                if verb == 'get' and i is Ellipsis:
                    i = 0
                if not isinstance(i, int) or not -len(m) <= i < len(m):
                    return ('err', ST['PARAM'])
                if verb == 'setitem':
                    if a[1] in BAD_SET:
                        return ('err', ST['PARAM'])
                    m[i] = cast(t, a[1])
                    return ('ok', None)
                return ('ok', rd(m[i]))
            if verb == 'list':
                return ('ok', [rd(x) for x in m])
            if verb == 'in':
                return ('ok', any(x == a[0] for x in m))
        raise AssertionError(op)


class _Bad:
    """membership test that never compares unequal types oddly"""

    def __contains__(self, x):
        return x is None or isinstance(x, (float, list, dict, type))


BAD_SET = _Bad()


def cast(t, v):
    if t == 'int' and isinstance(v, bool):
        return int(v)
    if t == 'bool' and isinstance(v, int):
        return v != 0
    return v


# ---------------------------------------------------------------- implementation side ---------------------------
def handle(score, cache, op):
    from iconservice import VarDB, DictDB, ArrayDB
    kind, name, t, depth, _ = op[:5]
    k = (kind, repr(name), cache['h'])
    if k not in cache:
        n = to_py(name)
        cache[k] = (VarDB(n, score.db, ty(t)) if kind == 'v' else
                    DictDB(n, score.db, ty(t), depth) if kind == 'd' else ArrayDB(n, score.db, ty(t)))
    return cache[k]


def perform(score, cache, op):
    kind, name, t, depth, verb = op[:5]
    a = [to_py(x) for x in op[5:]]
    c = handle(score, cache, op)
    if kind == 'v':
        return {'get': lambda: c.get(), 'set': lambda: c.set(a[0]), 'remove': lambda: c.remove()}[verb]()
    if kind == 'd':
        if verb == 'iter':
            return [x for x in c]
        path = [to_py(x) for x in op[5]]
        d = c
        for p in path[:-1]:
            d = d[p]
        last = path[-1]
        if verb == 'get':
            return d[last]
        if verb == 'in':
            return last in d
        if verb == 'set':
            d[last] = a[1]
            return None
        if verb == 'del':
            del d[last]
            return None
        return d.remove(last)
    if verb == 'put':
        return c.put(a[0])
    if verb == 'pop':
        return c.pop()
    if verb == 'len':
        return len(c)
    if verb == 'get':
        return c.get() if op[5] is Ellipsis else c.get(a[0])
    if verb == 'getitem':
        return c[a[0]]
    if verb == 'setitem':
        c[a[0]] = a[1]
        return None
    if verb == 'list':
        return [x for x in c]
    if verb == 'in':
        return a[0] in c
    raise AssertionError(op)


def program(ops, out):
    def run(score):
        cache = {}
        for h, op in ops:
            cache['h'] = h
            out.append(attempt(perform, score, cache, op))
    return run


def explore(ctx, addrs, alphabet, probes, init_ops=(), maxlen=3):
    """BFS: alphabet = list of ops; probes = read ops run after every step in a fresh invocation at every address."""
    host = Host(ctx, addrs=(A1, A2))

    def driver(node):
        start = Model()
        seen = {}
        frontier = [((), {})]
        seen[start.canon()] = True
        ctx.state(start.canon())
        while frontier:
            nxt = []
            for canon, store in frontier:
                for addr in addrs:
                    for op in alphabet:
                        m = Model(canon)
                        if op[4] == 'put' and len(m.st.get((addr, 'a', ekey(op[1])), ())) >= maxlen:
                            continue
                        ctx.case((canon, addr.text, op))
                        node.stores = {a: dict(s) for a, s in store.items()}
                        out = []
                        o = yield host.inv(program([(0, op)], out), at=addr)
                        exp = m.apply(addr, op)
                        compare(ctx, [(addr, op, exp)], out, o)
                        ctx.transitions += 1
                        after = {a: dict(s) for a, s in node.stores.items()}
                        for pa in addrs:
                            pout = []
                            m2 = Model(m.canon())
                            exps = [(pa, p, m2.apply(pa, p)) for p in probes]
                            o = yield host.inv(program([(0, p) for p in probes], pout), at=pa, method='view', readonly=True)
                            compare(ctx, exps, pout, o, after=op)
                        k = m.canon()
                        k2 = Model(m.canon()).canon()
                        if k2 not in seen:
                            seen[k2] = True
                            ctx.state(tuple(a.text for a in addrs), alphabet[0][:4], k2)
                            nxt.append((k2, after))
                        ctx.outcome(op[0], op[2], op[4], exp)
            frontier = nxt
        ctx.sample(dict(config=repr(alphabet[0][:4]), states=len(seen), ops=len(alphabet)))

    run_engine(driver, setup=host.setup)


def compare(ctx, exps, out, o, after=None):
    if o.status != 0:
        return ctx.fail('invocation failed: %r %r (expected operations %r)' % (o.status, o.result, exps))
    if len(out) != len(exps):
        return ctx.fail('ran %d of %d operations' % (len(out), len(exps)))
    for (addr, op, exp), got in zip(exps, out):
        if not W.same(list(got), list(exp)):
            ctx.fail('at %s %r%s: expected %r, got %r' % (addr.text, op, '' if after is None else ' after %r' % (after,), exp, got))


def inline(ctx, ops, lo, hi, first=None, pre=()):
    """All sequences inside a single invocation, over two handles per collection, then probed in a new invocation."""
    host = Host(ctx, addrs=(A1, A2))
    alpha = [(h, op) for op in ops for h in (0, 1)]
    probes = probes_for(ops)

    def driver(node):
        for n in range(lo, hi + 1):
            for rest in itertools.product(alpha, repeat=n - 1):
                seq = (first,) + rest
                ctx.case(seq)
                node.stores = {}
                m = Model()
                for op in pre:
                    pass
                out = []
                full = [(0, p) for p in pre] + list(seq)
                exps = [(A1, op, m.apply(A1, op)) for _, op in full]
                o = yield host.inv(program(full, out))
                compare(ctx, exps, out, o)
                pout = []
                exps = [(A1, p, m.apply(A1, p)) for p in probes]
                o = yield host.inv(program([(0, p) for p in probes], pout), method='view', readonly=True)
                compare(ctx, exps, pout, o)
                ctx.transitions += len(full)
                ctx.state('inline', m.canon())
    run_engine(driver, setup=host.setup)


def probes_for(ops):
    r = []
    for op in ops:
        b = op[:4]
        if op[0] == 'v':
            r.append(b + ('get',))
        elif op[0] == 'd' and op[4] == 'set' and len(op[5]) == op[3] and not any(x in BAD_SET for x in op[5]):
            r += [b + ('get', op[5]), b + ('in', op[5])]
        elif op[0] == 'a':
            r += [b + ('list',), b + ('len',)]
    u = []
    for x in r:
        if x not in u:
            u.append(x)
    return u


# ---------------------------------------------------------------- alphabets --------------------------------------
def var_ops(name, t, vals, bad=True):
    b = ('v', name, t, 0)
    return ([b + ('set', v) for v in vals] + [b + ('get',), b + ('remove',)]
            + ([b + ('set', v) for v in BAD[:4]] if bad else []))


def dict_ops(name, t, depth, paths, vals, bad=True):
    b = ('d', name, t, depth)
    r = []
    for p in paths:
        r += [b + ('set', p, v) for v in vals] + [b + ('get', p), b + ('in', p), b + ('del', p), b + ('remove', p)]
    if bad:
        p = paths[0]
        r += [b + ('iter',), b + ('set', p, None), b + ('set', p, 1.5), b + ('set', p, [1]),
              b + ('set', p[:-1] + (None,), vals[0]), b + ('get', p[:-1] + (2.5,)), b + ('del', p[:-1] + (None,)),
              b + ('in', p[:-1] + (None,))]
        if depth > 1:
            r += [b + ('set', p[:-1], vals[0]), b + ('del', p[:-1]), b + ('remove', p[:-1])]
    return r


def arr_ops(name, t, vals, full=True):
    b = ('a', name, t, 0)
    r = [b + ('put', v) for v in vals] + [b + ('pop',), b + ('len',), b + ('list',)]
    idx = [0, 1, 2, 3, -1, -2, -3, -4, -5, 5] if full else [0, -1, 1]
    r += [b + ('getitem', i) for i in idx] + [b + ('setitem', i, vals[-1]) for i in idx]
    r += [b + ('in', v) for v in vals if not empty(v)]
    if full:
        r += [b + ('get', i) for i in (0, -1, 7, Ellipsis)]
        r += [b + ('put', None), b + ('put', 1.5), b + ('getitem', 'x'), b + ('getitem', None), b + ('setitem', '0', vals[0]),
              b + ('setitem', 0, None), b + ('getitem', 0.0)]
        r += [b + ('in', {'int': 99, 'str': 'nope', 'bytes': b'nope', 'bool': 2, 'Address': W.addr(1, 77)}[t]),
              b + ('in', {'int': True, 'str': b'a', 'bytes': 'a', 'bool': 1, 'Address': 5}[t])]
    return r


KEYS = {'int': [0, -1, 128], 'str': ['', 'a', '\u00e9'], 'bytes': [b'', b'\x00', b'\x80'], 'Address': AD}


def units(tier):
    u = []
    for t in VALS:
        u.append(('var', t))
        for kt in KEYS:
            u.append(('dict1', t, kt))
        u.append(('arr', t, 3 if tier == 'quick' else 5))
        for n in ((0,) if tier == 'quick' else (0, 1)):
            u.append(('dict2', t, n))
    u += [('dict3', 'int'), ('names',), ('big', 0), ('big', 1)]
    u += [('mixed', 1 if tier == 'quick' else 2, t) for t in ('int', 'bytes')]
    hi = 3 if tier == 'quick' else 4
    for cfg in ('arr', 'dict', 'var', 'mix', 'sub'):
        ops = inline_ops(cfg)
        for k in range(2 * len(ops)):
            u.append(('inline', cfg, hi, k))
    return u


def inline_ops(cfg):
    a, d, v, d2 = ('a', 'x', 'int', 0), ('d', 'x', 'int', 1), ('v', 'x', 'int', 0), ('d', 'y', 'bytes', 2)
    if cfg == 'arr':
        return [a + ('put', 1), a + ('put', 300), a + ('pop',), a + ('setitem', 0, 7), a + ('getitem', -1), a + ('len',), a + ('in', 1)]
    if cfg == 'dict':
        return [d + ('set', (1,), 5), d + ('set', ('k',), 6), d + ('del', (1,)), d + ('get', (1,)), d2 + ('set', (1, 2), b'z'),
                d2 + ('set', (2, 1), b'w'), d2 + ('get', (1, 2))]
    if cfg == 'sub':
        # keys which print alike but differ
        p = [(1, 2), ('1', 2), (b'\x01', '2'), (W.addr(0, 1), 2)]
        return [d2 + ('set', p[0], b'z'), d2 + ('set', p[1], b'w'), d2 + ('set', p[3], b'v'), d2 + ('get', p[0]), d2 + ('get', p[1]),
                d2 + ('set', p[2], b'u'), d2 + ('del', p[1])]
    if cfg == 'var':
        s, n = ('v', 's', 'str', 0), ('v', 'n', 'int', 0)
        return [s + ('set', 'a'), s + ('set', ''), s + ('remove',), s + ('get',), n + ('set', -1), n + ('get',), n + ('remove',)]
    return [v + ('set', 9), v + ('get',), d + ('set', (0,), 4), d + ('get', (0,)), a + ('put', 2), a + ('pop',), a + ('setitem', -1, 3)]


def unit(u, ctx):
    k = u[0]
    if k == 'var':
        ops = var_ops('x', u[1], VALS[u[1]])
        explore(ctx, (A1,), ops, probes_for(ops))
        if u[1] == 'int':
            ops = var_ops('x', 'int', [True, False, 2])
            explore(ctx, (A1,), ops, probes_for(ops))
        if u[1] == 'bool':
            ops = var_ops('x', 'bool', [2, -1, 0, 256, 1])
            explore(ctx, (A1,), ops, probes_for(ops))
            ops = dict_ops('x', 'bool', 1, [('a',), (1,)], [2, 0, -256], bad=False)
            explore(ctx, (A1,), ops, probes_for(ops))
            ops = arr_ops('x', 'bool', [3, 0], full=False)
            ops = [o for o in ops if o[4] != 'in']
            explore(ctx, (A1,), ops, probes_for(ops), maxlen=2)
    elif k == 'dict1':
        ks = KEYS[u[2]]
        ops = dict_ops('x', u[1], 1, [(x,) for x in ks], SMALL[u[1]] + ([''] if u[1] == 'str' else [b''] if u[1] == 'bytes' else []))
        explore(ctx, (A1,), ops, probes_for(ops))
    elif k == 'dict2':
        ks = [('a', 'b'), ('b', 'a'), ('ab', ''), ('', 'ab')] if u[2] == 0 else [(1, b'\x01'), (b'\x01', 'a'), (W.addr(1, 1), 0)]
        ops = dict_ops('x', u[1], 2, ks, SMALL[u[1]][:1] if u[2] == 0 else SMALL[u[1]])
        explore(ctx, (A1,), ops, probes_for(ops))
    elif k == 'dict3':
        ops = dict_ops(5, u[1], 3, [('a', 'b', 'c'), ('a', 'c', 'b'), ('ab', '', 'c'), (b'\x00', 0, 1)], [1], bad=True)
        ops += [('d', 5, u[1], 3, 'set', ('a',), 1), ('d', 5, u[1], 3, 'del', ('a', 'b'))]
        explore(ctx, (A1,), ops, probes_for(ops))
    elif k == 'arr':
        ops = arr_ops('x', u[1], SMALL[u[1]] + ([''] if u[1] == 'str' else [b''] if u[1] == 'bytes' else []))
        explore(ctx, (A1,), ops, probes_for(ops), maxlen=u[2])
    elif k == 'names':
        ops = []
        for n in ('x', b'y', 7, W.addr(0, 7), ''):
            ops += var_ops(n, 'int', [3], bad=False)
            ops += [('a', n, 'int', 0, 'put', 4), ('a', n, 'int', 0, 'pop')]
        explore(ctx, (A1,), ops[:2] + ops[3:5] + ops[5:7] + ops[8:10] + ops[10:12] + ops[13:15], probes_for(ops), maxlen=1)
    elif k == 'mixed':
        ops = []
        t = u[2]
        x = SMALL[t]
        ops += var_ops('x', t, x[:1], bad=False) + dict_ops('x', t, 1, [(0,)], x[:1], bad=False)[:4] + \
            arr_ops('x', t, x[:1], full=False)[:4]
        explore(ctx, (A1, A2), ops, probes_for(ops), maxlen=u[1])
    elif k == 'big':
        big(ctx, u[1])
    elif k == 'inline':
        _, cfg, hi, first = u
        ops = inline_ops(cfg)
        alpha = [(h, op) for op in ops for h in (0, 1)]
        inline(ctx, ops, 1, hi, first=alpha[first])
        if cfg == 'arr' and ctx.tier == 'quick':
            pass


def big(ctx, which):
    host = Host(ctx)
    n = 300

    def driver(node):
        b = ('a', 'big', 'int', 0)
        m = Model()
        for lo in range(0, n, 50):
            ops = [b + ('put', i * i - 5000) for i in range(lo, lo + 50)]
            ctx.case(('put', lo))
            out = []
            exps = [(A1, op, m.apply(A1, op)) for op in ops]
            o = yield host.inv(program([(0, x) for x in ops], out))
            compare(ctx, exps, out, o)
            ctx.transitions += 50
        idx = [0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 298, 299, -1, -2, -44, -45, -128, -172, -300, 300, -301]
        ops = [b + ('getitem', i) for i in idx] + [b + ('in', v * v - 5000) for v in (0, 128, 299, 300)] + [b + ('list',), b + ('len',)]
        if which:
            ops += [b + ('setitem', i, i) for i in idx] + [b + ('list',)]
        ctx.case(('read', which))
        out = []
        exps = [(A1, op, m.apply(A1, op)) for op in ops]
        o = yield host.inv(program([(0, x) for x in ops], out))
        compare(ctx, exps, out, o)
        for lo in range(0, n + 10, 31):
            ops = [b + ('pop',)] * 31 + [b + ('len',), b + ('getitem', -1)]
            ctx.case(('pop', lo))
            out = []
            exps = [(A1, op, m.apply(A1, op)) for op in ops]
            o = yield host.inv(program([(0, x) for x in ops], out))
            compare(ctx, exps, out, o)
            ctx.state('big', which, m.canon())
            ctx.transitions += 33
    run_engine(driver, setup=host.setup)
