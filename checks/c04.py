"""C04: step accounting is exact, bounded by the limit, independent of when write acknowledgements are consumed.

Every operation sequence of bounded length, under both price-table schemas, several initial stores and every step
limit around each running total, runs on the real engine. The reference charges each operation at once with the exact
old value (no acknowledgement queue); the only freedom left to the engine is when a deletion that overshoots the limit
is noticed.
"""
import hashlib
import itertools

from mc import wire as W
from mc.common import Host, A1, A2, ST
from mc.node import run_engine, DEFAULT_COSTS_V0, DEFAULT_COSTS_V1

TECHNIQUE = 'explicit-state model checking: exhaustive operation sequences x step limits on the real engine against an exact cost model'
BOUNDS = dict(
    quick='both price schemas (+2 odd tables) x 2 initial stores x all sequences: length<=2 over 24 operations, length 3 over 11, length 6 over 5 write operations; limits 0, every running total and gross total -1/+0/+1; nested calls with caught/uncaught success, revert and out-of-step',
    thorough='length 3 over 24 operations, length 4 over 12, length 7 over 5 write operations')

ODD_V1 = {'schema': 1, 'get': 3, 'getBase': 7, 'set': 11, 'setBase': 100, 'delete': -5, 'deleteBase': 61, 'log': 2, 'logBase': 17, 'apiCall': 19}
ODD_V0 = {'get': 2, 'set': 11, 'replace': 4, 'delete': 6, 'eventLog': 3, 'apiCall': 19}
# prices beyond the precision of floating point, and an odd negative sum of the bases of set and delete
HUGE_V1 = {'schema': 1, 'get': 1, 'getBase': 2 ** 55 + 1, 'set': 2 ** 50 + 1, 'setBase': 2 ** 55 + 1, 'delete': -5, 'deleteBase': 2 ** 54 + 2, 'log': 1,
           'logBase': 1, 'apiCall': 2 ** 53 + 7}
NEG_V1 = {'schema': 1, 'get': 1, 'getBase': 2, 'set': 3, 'setBase': 10, 'delete': -1, 'deleteBase': -51, 'log': 2, 'logBase': 1, 'apiCall': 3}
TABLES = [DEFAULT_COSTS_V1, DEFAULT_COSTS_V0, ODD_V1, ODD_V0, HUGE_V1, NEG_V1]
PLENTY = 2 ** 62
ARR = [b'1234', b'123456', b'12345678']
INIT = [{}, {'x': 20, 'y': 5}]
SIG = len('Ev(int,str)')


def cost_get(c, n):
    return (c.get('getBase', 0) if c.get('schema') else 0) + c.get('get', 0) * n


def cost_set(c, new, old):
    """(gross charge made up front, net cost)"""
    if new == 0:
        x = cost_del(c, old)
        return x, x
    if c.get('schema'):
        g = c.get('setBase', 0) + c.get('set', 0) * new
        if old:
            sb, db = c.get('setBase', 0), c.get('deleteBase', 0)
            return g, g + (sb + db) // 2 - sb + c.get('delete', 0) * old
        return g, g
    g = c.get('set', 0) * new
    return g, (c.get('replace', 0) * new if old else g)


def cost_del(c, old):
    if not old:
        return 0
    return (c.get('deleteBase', 0) if c.get('schema') else 0) + c.get('delete', 0) * old


def cost_event(c, n):
    # arguments (1, 'e' * n)
    size = SIG + 1 + n
    if c.get('schema'):
        return c.get('logBase', 0) + c.get('log', 0) * size
    return c.get('eventLog', 0) * size


def cost_hash(c, n):
    a = c.get('apiCall', 0)
    return a + a * ((n + 31) // 32) // 10


def cost_contains(c, hit):
    cnt, size = (hit + 1, sum(len(x) for x in ARR[:hit + 1])) if hit is not None else (3, sum(len(x) for x in ARR))
    return (c.get('getBase', 0) * cnt if c.get('schema') else 0) + c.get('get', 0) * size


def sim(prog, stores, addr, limit, c, T=0, i=0, breaks=None, late=0):
    """late: deletion charges that may not have been noticed yet (they are charged when acknowledged).
    Set of allowed (status, used, stores) of running prog[i:] with T already used; stores: {addr: {key: size}}."""
    while i < len(prog):
        op = prog[i]
        st = stores.get(addr, {})
        k = op[0]
        early = False
        if breaks is not None:
            breaks.add(T)
        if k == 'R':
            if T > limit:
                return {(ST['OOS'], limit, None)}
            return {(ST['REVERT'], T, None)}
        if k == 'X':
            return {(ST['OOS'], limit, None) if T > limit else (1, T, None)}
        if k == 'D' or (k == 'S' and op[2] == 0):
            x = cost_del(c, st.get(op[1], 0))
            stores = put(stores, addr, op[1], 0)
            T += x
            i += 1
            late += max(x, 0)
            if x > 0 and T > limit:
                return {(ST['OOS'], limit, None)} | sim(prog, stores, addr, limit, c, T, i, breaks, late)
            continue
        if k == 'N':
            if T > limit:
                # noticed inside the contract's own try block
                return sim(prog, stores, addr, limit, c, limit, i + 1, breaks) if op[2] else {(ST['OOS'], limit, None)}
            r = set()
            for s, u, after in sim(op[1], stores, A2, limit - T, c):
                if breaks is not None:
                    breaks.add(T + u)
                if s == 0:
                    r |= sim(prog, thaw(after), addr, limit, c, T + u, i + 1, breaks)
                elif op[2]:
                    r |= sim(prog, stores, addr, limit, c, T + u, i + 1, breaks)
                else:
                    r.add((s, T + u, None))
            return r
        if k == 'B':
            i += 1
            continue
        if k == 'S':
            g, x = cost_set(c, op[2], st.get(op[1], 0))
            if breaks is not None:
                breaks.add(T + g)
            stores = put(stores, addr, op[1], op[2])
            xs = [x]
        elif k == 'G':
            xs = [cost_get(c, st.get(op[1], 0))]
        elif k == 'E':
            xs = [cost_event(c, op[1])]
        elif k == 'U':
            xs = [cost_event(c, 2 * op[1])]
        elif k == 'H':
            xs = [cost_hash(c, op[1])]
        elif k == 'C':
            xs = [cost_get(c, 1), cost_contains(c, op[1])]
        elif k == 'A':     # append to the array 'l': read size, write element, write size
            n = st.get('#l', 0)
            xs = [cost_get(c, 1 if n else 0), cost_set(c, op[1], 0)[1], cost_set(c, 1, 1 if n else 0)[1]]
            if breaks is not None:
                breaks.add(T + xs[0] + xs[1] + cost_set(c, 1, 0)[0])
            stores = put(stores, addr, '#l', n + 1)
            stores = put(stores, addr, '#l%d' % n, op[1])
        else:
            raise AssertionError(op)
        for x in xs:
            T += x
            if x and T > limit:
                if T - late > limit:
                    return {(ST['OOS'], limit, None)}
                # may be noticed here or at a later acknowledgement
                early = True
        i += 1
        if early:
            return {(ST['OOS'], limit, None)} | sim(prog, stores, addr, limit, c, T, i, breaks, late)
    if T > limit:
        return {(ST['OOS'], limit, None)}
    return {(0, T, freeze(stores))}


def put(stores, addr, key, n):
    r = {a: dict(s) for a, s in stores.items()}
    s = r.setdefault(addr, {})
    if n:
        s[key] = n
    else:
        s.pop(key, None)
    return r


def freeze(s):
    return tuple(sorted((a, tuple(sorted(x.items()))) for a, x in s.items()))


def thaw(f):
    return {a: dict(x) for a, x in f}


def runner(prog, callee):
    def run(score):
        from iconservice import VarDB, ArrayDB, sha3_256, revert
        from mc.common import to_py
        db = score.db
        for op in prog:
            k = op[0]
            if k == 'S':
                VarDB(op[1], db, bytes).set(b's' * op[2])
            elif k == 'D':
                VarDB(op[1], db, bytes).remove()
            elif k == 'G':
                VarDB(op[1], db, bytes).get()
            elif k == 'E':
                score.Ev(1, 'e' * op[1])
            elif k == 'U':
                score.Ev(1, '\u00e9' * op[1])
            elif k == 'X':
                raise ENDS[op[1]]()
            elif k == 'H':
                sha3_256(b'h' * op[1])
            elif k == 'C':
                v = b'none' if op[1] is None else ARR[op[1]]
                if (v in ArrayDB('a', db, bytes)) != (op[1] is not None):
                    raise AssertionError('membership')
            elif k == 'A':
                ArrayDB('l', db, bytes).put(b'l' * op[1])
            elif k == 'B':
                score.icx.get_balance(score.address)
            elif k == 'R':
                revert('r', 0)
            elif k == 'N':
                i = callee[op[1]]
                if op[2]:
                    try:
                        score.call(to_py(A2), 'run', {'i': i})
                    except BaseException:   # noqa
                        pass
                else:
                    score.call(to_py(A2), 'run', {'i': i})
    return run


def h(b):
    return hashlib.sha3_256(b).digest()


def vkey(name):
    return h(b'\x02' + W.rlp(name.encode()))


def prestore(init):
    s = {vkey(k): b's' * n for k, n in init.items()}
    s[h(b'\x00' + W.rlp(b'a'))] = b'\x03'
    for i, v in enumerate(ARR):
        s[h(b'\x00' + W.rlp(b'a') + W.rlp(W.int_enc(i)))] = v
    return s


CALLEES = [(), (('S', 'x', 3),), (('D', 'x'), ('S', 'x', 1), ('R',)), (('S', 'y', 1), ('D', 'y'), ('E', 1)), (('D', 'x'),), (('G', 'x'), ('X', 2))]
W2 = [('S', 'x', 1), ('S', 'x', 20), ('D', 'x'), ('S', 'y', 2), ('D', 'y')]
FULL = W2 + [('S', 'x', 0), ('D', 'z'), ('G', 'x'), ('G', 'z'), ('E', 0), ('E', 40), ('H', 0), ('H', 32), ('H', 33), ('C', None), ('C', 0), ('C', 1),
             ('A', 4), ('B',), ('R',)] + [('N', CALLEES[1], False), ('N', CALLEES[2], True), ('N', CALLEES[2], False), ('N', CALLEES[3], True)]
ENDS = [SystemExit, KeyboardInterrupt, GeneratorExit, ZeroDivisionError]
FULL += [('U', 3), ('X', 0), ('X', 1), ('X', 3), ('N', CALLEES[5], True), ('N', CALLEES[5], False)]
MID = W2 + [('G', 'x'), ('E', 3), ('C', 1), ('A', 20), ('N', CALLEES[3], True), ('N', CALLEES[4], False)]
MID4 = MID + [('B',)]


def units(tier):
    u = []
    t4 = range(len(TABLES))
    for t in t4:
        for i in range(len(INIT)):
            u.append(('seq', t, i, 'FULL', 1, ()))
            for op in range(len(FULL)):
                if tier == 'quick':
                    if op % 4 == 0:
                        u.append(('seq', t, i, 'FULL', 1, tuple(range(op, min(op + 4, len(FULL))))))
                else:
                    u.append(('seq', t, i, 'FULL', 2, (op,)))
            if t < 2 or tier == 'thorough':
                for op in range(len(MID)):
                    u.append(('seq', t, i, 'MID', 2, (op,)) if tier == 'quick' else ('seq', t, i, 'MID4', 3, (op,)))
                for op in range(len(W2)):
                    u.append(('seq', t, i, 'W2', 5 if tier == 'quick' else 6, (op,)))
    u += [('swallow', t, i) for t in t4 for i in range(len(INIT))]
    return u


def unit(u, ctx):
    host = Host(ctx)
    c, init = TABLES[u[1]], INIT[u[2]]
    base = {A1: dict(init), A2: dict(init)}
    pre = prestore(init)

    def progs():
        if u[0] == 'swallow':
            return
        al = globals()[u[3]]
        if u[5] == ():
            yield ()
            for op in al:
                yield (op,)
            return
        for f in u[5]:
            for rest in itertools.product(al, repeat=u[4]):
                yield (al[f],) + rest

    def driver(node):
        callee = {p: 1 + i for i, p in enumerate(CALLEES)}
        for p, i in callee.items():
            host.prog(i, runner(p, {}))
        for prog in progs():
            breaks = set()
            free = sim(prog, base, A1, PLENTY, c, breaks=breaks)
            for s, used, _ in free:
                breaks.add(used)
            lim = {0, PLENTY}
            for b in breaks:
                for d in ((-1, 0) if len(prog) > 2 else (-1, 0, 1)):
                    if b + d >= 0:
                        lim.add(b + d)
            if len(prog) > 4:
                top = max(breaks)
                lim = {x for x in lim if x >= top * 3 // 4}
            run = runner(prog, callee)
            for limit in sorted(lim):
                ctx.case((u[1], u[2], prog, limit))
                node.stores = {A1: dict(pre), A2: dict(pre)}
                o = yield host.inv(run, limit=limit, costs=c)
                allowed = sim(prog, base, A1, limit, c)
                ctx.transitions += len(prog)
                ctx.outcome(o.status, limit == o.used)
                m = [a for a in allowed if a[0] == o.status and a[1] == o.used]
                if not m:
                    ctx.fail('limit=%d: expected (status, used) in %s, got (%d, %d) %r' % (
                        limit, sorted((a[0], a[1]) for a in allowed), o.status, o.used, o.result))
                    continue
                if o.status == 0:
                    want = thaw(m[0][2])
                    for a in (A1, A2):
                        for k in ('x', 'y', 'z'):
                            if len(node.stores[a].get(vkey(k), b'')) != want.get(a, {}).get(k, 0):
                                ctx.fail('store of %s after success: %s' % (a.text, k))
                if len(allowed) > 1:
                    ctx.note('early or late out-of-step allowed')
            ctx.state(u[1], u[2], prog)
        ctx.sample(dict(unit=repr(u), last=repr(prog), limits=len(lim)))

    def swallow(node):
        """The contract swallows every failure: whatever happens the report stays within the limit."""
        ops = W2 + [('G', 'x'), ('E', 3), ('A', 2), ('C', 0), ('H', 1)]
        for prog in itertools.product(ops, repeat=2 if ctx.tier == 'quick' else 3):
            full = max([a[1] for a in sim(prog, base, A1, PLENTY, c)] + [1])
            for limit in sorted({0, 1, full // 3, full // 2, max(full - 1, 0), full, full * 2}):
                ctx.case(('swallow', u[1], u[2], prog, limit))
                node.stores = {A1: dict(pre), A2: dict(pre)}
                res = []

                def run(score):
                    for op in prog:
                        try:
                            runner((op,), {})(score)
                            res.append(True)
                        except BaseException as e:   # noqa
                            res.append(getattr(e, 'code', None))
                o = yield host.inv(run, limit=limit, costs=c)
                if o.status not in (0, ST['OOS']) or o.used > limit:
                    ctx.fail('swallowing %r: status %d used %d limit %d' % (res, o.status, o.used, limit))
                if any(r is not True and r != ST['OOS'] for r in res):
                    ctx.fail('operations failed with %r' % (res,))
                ctx.transitions += len(prog)
            ctx.state('sw', u[1], u[2], prog)

    run_engine(swallow if u[0] == 'swallow' else driver, setup=host.setup)
