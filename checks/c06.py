"""C06: replies are matched to requests under any fragmentation and batching.

Operation sequences of a contract (queries, unacknowledged writes, nested calls, API requests during a call) run on the
real engine while the harness decides how the byte stream from the node is cut into reads. A cut schedule is a path in
the graph whose nodes are stream positions and whose edges are reads; visiting every edge (i, j) from the position i
covers every way the unpacker can be resumed, so all pairs of cuts are enumerated for short streams, every single cut
and every uniform read size for longer ones. Also: loss of the connection at every byte, short sends, large frames.
"""
import hashlib
import itertools

from mc import wire as W
from mc.common import Host, A1, A2, EOA1, EOA2, to_py, seqs, forked
from mc.node import run_engine, GetApi, Problem, DEFAULT_COSTS_V1
from checks.c04 import cost_get, cost_set, cost_del, cost_event, ODD_V0, ODD_V1

TECHNIQUE = 'model checking: exhaustive enumeration of stream fragmentations x operation sequences on the real engine, against a sequential reference'
BOUNDS = dict(
    quick='all sequences of length<=3 over 10 operations and all write sequences of length<=8 over 3 writes followed by a query, at read sizes 1 and unlimited; every single cut and every pair of cuts of the reply stream for every pair of operations; every read size 1..64; connection lost at every byte; send sizes 1..9; frames up to 3 MB',
    thorough='length<=4 over 10 operations; writes of length<=10; pairs of cuts for every triple of 6 operations')

KEYS = {'a': 3, 'b': 7, 'c': 0}          # name -> initial length (0: absent)
ARR = [b'1234', b'123456', b'12345678']
OPS = [('S', 'a', 5), ('S', 'b', 2), ('S', 'c', 4), ('D', 'a'), ('G', 'a'), ('G', 'b'), ('B', 1), ('C', 1), ('K', 9), ('E', 2)]
WRITES = [('S', 'a', 5), ('D', 'b'), ('S', 'c', 4)]
QUERIES = [('G', 'b'), ('B', 1), ('C', 1), ('K', 9)]
BAL = {EOA1: 1000, EOA2: 255 << 100}


def h(b):
    return hashlib.sha3_256(b).digest()


def val(k, n):
    return (k * n).encode()


def initial():
    st = {h(b'\x02' + W.rlp(k.encode())): val(k, n) for k, n in KEYS.items() if n}
    p = b'\x00' + W.rlp(b'r')
    st[h(p)] = W.int_enc(len(ARR))
    for i, v in enumerate(ARR):
        st[h(p + W.rlp(W.int_enc(i)))] = v
    return st


def model(prog, c):
    """(observations, steps, final lengths)"""
    st, obs, T = dict(KEYS), [], 0
    for op in prog:
        if op[0] == 'S':
            T += cost_set(c, op[2], st[op[1]])[1]
            st[op[1]] = op[2]
        elif op[0] == 'D':
            T += cost_del(c, st[op[1]])
            st[op[1]] = 0
        elif op[0] == 'G':
            T += cost_get(c, st[op[1]])
            obs.append(val(op[1], st[op[1]]) if st[op[1]] else None)
        elif op[0] == 'B':
            obs.append(BAL[(EOA1, EOA2)[op[1]]])
        elif op[0] == 'C':
            n = op[1] + 1
            T += cost_get(c, 1) + (c.get('getBase', 0) * n if c.get('schema') else 0) + c.get('get', 0) * sum(map(len, ARR[:n]))
            obs.append(True)
        elif op[0] == 'K':
            T += 12345
            obs.append(op[1])
        elif op[0] == 'E':
            T += cost_event(c, op[1])
    return obs, T, st


def real(prog):
    def run(s):
        from iconservice import VarDB, ArrayDB
        obs = []
        db = s.__dict__['_mc_db']
        for op in prog:
            if op[0] == 'S':
                VarDB(op[1], db, bytes).set(val(op[1], op[2]))
            elif op[0] == 'D':
                VarDB(op[1], db, bytes).remove()
            elif op[0] == 'G':
                obs.append(VarDB(op[1], db, bytes).get())
            elif op[0] == 'B':
                obs.append(s.icx.get_balance(to_py((EOA1, EOA2)[op[1]])))
            elif op[0] == 'C':
                obs.append(ARR[op[1]] in ArrayDB('r', db, bytes))
            elif op[0] == 'K':
                obs.append(s.call(to_py(A2), 'run', {'i': op[1]}))
            elif op[0] == 'E':
                s.Ev(1, 'e' * op[1])
        return obs
    return run


def on_call(node, fr, info):
    """Callee answered by the node itself; the API variant asks for an API in the middle of the call."""
    r = (0, 12345, info['params']['i'] if isinstance(info['params'], dict) else info['params'][0])
    if node.api_code:
        return ('api', node.api_code, r)
    return ('reply',) + r


class Cuts:
    """Reads of the current request end at the given stream positions."""

    def __init__(self, node):
        self.node, self.cuts, self.pos, self.size, self.log = node, (), 0, None, []

    def __call__(self, avail, n):
        if self.size:
            k = self.size
        else:
            k = min([c - self.pos for c in self.cuts if c > self.pos] + [n])
        k = max(1, min(k, avail, n))
        self.pos += k
        return k

    def reset(self, cuts=(), size=None):
        self.cuts, self.size, self.pos, self.log = cuts, size, 0, []


def units(tier):
    u = [('seq', i, t) for i in range(len(OPS)) for t in range(2)]
    u += [('writes', i) for i in range(len(QUERIES))]
    u += [('cuts', i) for i in range(len(OPS))]
    if tier == 'thorough':
        u += [('cuts3', i) for i in range(6)]
    u += [('sizes',), ('eof', 0), ('eof', 1), ('eof', 2), ('eof', 3), ('send',), ('big',), ('api',), ('hello',)]
    return u


def setup_for(host, ctx, holder):
    def setup(node):
        host.setup(node)
        node.on_call = on_call
        node.api_code = None
        node.balances = dict(BAL)
        holder['cuts'] = node.chunk = Cuts(node)
    return setup


def judge(ctx, node, o, prog, c, what=''):
    obs, T, st = model(prog, c)
    exp = [W.any_enc(x) for x in obs]
    if o.status != 0 or W.any_enc(o.result) != [W.LIST, exp] or o.used != T:
        ctx.fail('program %r%s: got status %d steps %d result %r, expected steps %d result %r' % (prog, what, o.status, o.used, o.result, T, obs))
    want = {h(b'\x02' + W.rlp(k.encode())): val(k, n) for k, n in st.items() if n}
    got = {k: v for k, v in node.stores[A1].items() if k in {h(b'\x02' + W.rlp(k.encode())) for k in KEYS}}
    if want != got:
        ctx.fail('program %r%s: stored state differs: %r' % (prog, what, got))


def unit(u, ctx):
    host = Host(ctx)
    holder = {}
    api_code = ctx.scores.make(open_api_src())

    def one(node, prog, c, cuts=(), size=None, what=None):
        node.stores = {A1: initial(), A2: {}}
        holder['cuts'].reset(cuts, size)
        ctx.case((prog, c.get('schema', 0), cuts, size, node.api_code))
        o = yield host.inv(real(prog), costs=c)
        judge(ctx, node, o, prog, c, ' (cuts %r, read size %r)' % (cuts, size))
        ctx.transitions += len(o.frame.trace)
        ctx.outcome(o.used, repr(o.result))
        ctx.state(prog, c.get('schema', 0), cuts, size)

    kind = u[0]
    if kind == 'seq':
        L = 4 if ctx.tier == 'thorough' else 3
        c = (DEFAULT_COSTS_V1, ODD_V0)[u[2]]

        def driver(node):
            for p in seqs(OPS, 0, L - 1):
                prog = (OPS[u[1]],) + p
                for size in (1, None):
                    for node.api_code in ((None, api_code) if any(o[0] == 'K' for o in prog) else (None,)):
                        yield from one(node, prog, c, size=size)
        run_engine(driver, setup=setup_for(host, ctx, holder))
        ctx.sample(dict(first=OPS[u[1]], length=L, read_sizes=[1, 'all']))
    elif kind == 'writes':
        L = 10 if ctx.tier == 'thorough' else 8

        def driver(node):
            for p in seqs(WRITES, 1, L):
                yield from one(node, p + (QUERIES[u[1]],), ODD_V0, size=1)
                yield from one(node, p + (QUERIES[u[1]],) + p[:2], ODD_V1)
        run_engine(driver, setup=setup_for(host, ctx, holder))
    elif kind in ('cuts', 'cuts3'):
        def driver(node):
            tails = itertools.product(OPS[:9], repeat=1) if kind == 'cuts' else itertools.product(OPS[2:8], repeat=2)
            for p in tails:
                prog = (OPS[u[1]],) + p
                # learn the stream length of this program
                node.api_code = None
                yield from one(node, prog, ODD_V0)
                cuts = holder['cuts']
                n = cuts.pos
                first = node.invoke_len
                for i in range(1, n):
                    yield from one(node, prog, ODD_V0, (i,))
                for i, j in itertools.combinations(range(max(first - 2, 1), n + 1), 2):
                    yield from one(node, prog, ODD_V0, (i, j))
        run_engine(driver, setup=setup_for(host, ctx, holder))
    elif kind == 'sizes':
        prog = (OPS[0], OPS[3], OPS[4], OPS[8], OPS[1], OPS[6], OPS[7], OPS[2])

        def driver(node):
            for size in range(1, 65):
                for node.api_code in (None, api_code):
                    yield from one(node, prog, DEFAULT_COSTS_V1, size=size)
            # the whole request is cut anywhere, twice
            node.api_code = None
            yield from one(node, OPS[8:9], ODD_V0)
            n = holder['cuts'].pos
            for i, j in itertools.combinations(range(1, n), 2):
                if (i * 31 + j) % 4 == 0 or ctx.tier == 'thorough' or j - i < 4:
                    yield from one(node, OPS[8:9], ODD_V0, (i, j))
        run_engine(driver, setup=setup_for(host, ctx, holder))
    elif kind == 'eof':
        prog = [(OPS[0], OPS[4]), (OPS[8], OPS[3]), (OPS[3], OPS[2]), (OPS[6],)][u[1]]
        total = []

        def learn(node):
            yield from one(node, prog, ODD_V0)
            total.append(holder['cuts'].pos)
        forked_total = forked(lambda: (run_engine(learn, setup=setup_for(host, ctx, holder)), total[0])[1])
        for cut in range(forked_total):
            ctx.case(('connection lost', prog, cut))
            ctx.state('eof', u[1], cut)
            r = forked(lambda: lost(host, ctx, prog, cut))
            ctx.transitions += 1
            ctx.outcome(r)
            if not r['ended']:
                ctx.fail('program %r: engine does not end after the connection is lost at byte %d (%d further reads)' % (prog, cut, r['reads']))
            if r['success']:
                ctx.fail('program %r: success reported although the connection was lost at byte %d' % (prog, cut))
    elif kind == 'send':
        # a short write of the transport must be continued
        from mc.node import FakeSocket
        orig = FakeSocket.send
        prog = (OPS[0], OPS[3], OPS[4], OPS[8], OPS[9], OPS[6], OPS[7])
        for cap in range(1, 10):
            def send(self, b, *a, cap=cap):
                b = bytes(b)[:cap]
                self.node.feed(b)
                return len(b)
            FakeSocket.send = send

            def driver(node):
                for p in seqs(OPS, 1, 2):
                    yield from one(node, p, ODD_V0)
                yield from one(node, prog, DEFAULT_COSTS_V1)
                ctx.case(('api', cap))
                o = yield GetApi(api_code)
                if o.status != 0:
                    ctx.fail('API request failed with send size %d' % cap)
            run_engine(driver, setup=setup_for(host, ctx, holder))
        FakeSocket.send = orig
    elif kind == 'big':
        def driver(node):
            sizes = [2, 31, 32, 255, 256, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 1 << 20, 3 << 20, (10 << 20) + 2]
            for n in sizes:
                for chunk in (None, 1024, 1000, 65536) if n < 1 << 23 else (None, 65536):
                    v = bytes(i * 7 & 255 for i in range(n))
                    for tp, x in (('bytes', v), ('str', 'é' * (n // 2))):
                        def prog(s, x=x, tp=tp):
                            from iconservice import VarDB
                            d = VarDB('q', s.__dict__['_mc_db'], bytes if tp == 'bytes' else str)
                            d.set(x)
                            return [d.get(), s.call(to_py(A2), 'run', {'i': x})]
                        node.stores = {A1: {}, A2: {}}
                        holder['cuts'].reset((), chunk)
                        ctx.case(('big', tp, n, chunk))
                        o = yield host.inv(prog)
                        ctx.state('big', tp, n, chunk)
                        ctx.transitions += len(o.frame.trace)
                        if o.status or o.result[0] != x or o.result[1] != x:
                            ctx.fail('%s of %d bytes altered or refused: status %d' % (tp, n, o.status))
                        ctx.outcome(n)
        run_engine(driver, setup=setup_for(host, ctx, holder))
    elif kind == 'api':
        # API requests and calls alternate, at top level and in the middle of calls, at every read size up to 16
        def driver(node):
            for size in (1, 2, 3, 5, 16, None):
                for seq in seqs('ANK', 1, 4):
                    for x in seq:
                        if x == 'A':
                            holder['cuts'].reset((), size)
                            ctx.case(('api', seq, size))
                            o = yield GetApi(api_code)
                            ctx.state('api', seq, size)
                            ctx.transitions += 1
                            names = sorted(m[1] for m in o.data or [])
                            if o.status or names != [b'Qv', b'on_install', b'on_update', b'probe']:
                                ctx.fail('API reply %r %r' % (o.status, names))
                        else:
                            node.api_code = api_code if x == 'N' else None
                            prog = (OPS[0], OPS[8], OPS[3], OPS[8], OPS[4])
                            yield from one(node, prog, DEFAULT_COSTS_V1, size=size)
        run_engine(driver, setup=setup_for(host, ctx, holder))
    elif kind == 'hello':
        for uuid, sock, level in [(a, b, None) for a in ('u', 'uuid-1', 'a b', 'é' * 40, '-'.join(['x' * 8] * 5))
                                  for b in (None, '/tmp/ee.socket', '/nonexistent/sub dir/x.sock')] + \
                [('u', None, v) for v in ('trace', 'debug', 'info', 'warn', 'error')]:
            if uuid:
                def go():
                    def driver(node):
                        return
                        yield
                    n = run_engine(driver, args=('-u', uuid) + (('-s', sock) if sock else ()) + (('-d', level) if level else ()))
                    return n.version, n.connected_to, n.socket_closed
                ctx.case((uuid, sock, level))
                ver, to, closed = forked(go)
                ctx.state(uuid, sock)
                ctx.transitions += 1
                ctx.outcome(ver)
                if ver != [1, uuid.encode(), b'python']:
                    ctx.fail('VERSION is %r, expected [1, %r, python]' % (ver, uuid))
                if to != (sock or '/tmp/ee.socket'):
                    ctx.fail('engine connected to %r instead of %r' % (to, sock))


def open_api_src():
    return '''
from iconservice import IconScoreBase, external, eventlog
class Score(IconScoreBase):
    @eventlog
    def Qv(self, a: int): pass
    def __init__(self, db): super().__init__(db)
    def on_install(self): pass
    def on_update(self): pass
    @external
    def probe(self, a: int, b: str = 'x') -> int: return 1
'''


def lost(host, ctx, prog, cut):
    """The node's stream ends after `cut` bytes of the request; returns how the engine takes it."""
    from mc import node as N
    res = dict(ended=False, reads=0, success=False)
    st = dict(pos=0)

    def recv(self, n, *a):
        left = cut - st['pos']
        if left <= 0:
            res['reads'] += 1
            if res['reads'] > 200:
                raise SystemExit('still reading')
            return b''
        d = self.node.read(min(n, left))
        st['pos'] += len(d)
        return d
    N.FakeSocket.recv = recv

    def recv_into(self, buf, nbytes=0, *a):
        d = recv(self, nbytes or len(buf))
        buf[:len(d)] = d
        return len(d)
    N.FakeSocket.recv_into = recv_into

    def driver(node):
        node.stores = {A1: initial(), A2: {}}
        yield host.inv(real(prog), costs=ODD_V0)

    holder = {}
    kept = []

    def setup(node):
        setup_for(host, ctx, holder)(node)
        node.chunk = None
        kept.append(node)
        fin = node.finish

        def finish(o, fr):
            res['success'] |= not node.frames and o.status == 0
            fin(o, fr)
        node.finish = finish
    try:
        run_engine(driver, setup=setup)
    except Problem:
        pass
    node = kept[0]
    res['ended'] = res['reads'] <= 200 and node.dead is None
    return res

