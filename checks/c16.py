"""C16: built-in functions compute the standard result and charge for it.

The built-ins run inside contract calls of the real engine over enumerated inputs, prices, revisions and limits; results
come from independent oracles (curve arithmetic written here, known-answer vectors), charges from the documented formulas.
"""
import hashlib
import itertools
import json

from mc import wire as W
from mc.common import Host, from_py, ST
from mc.node import run_engine

TECHNIQUE = 'model checking: exhaustive enumeration of inputs, prices, revisions and step limits of a bounded family on the real engine, against independent oracles'
BOUNDS = dict(
    quick='hashes: sizes 0..330 and 12 large x 5 prices x limits cost-1..cost+1; JSON: 1,400 values of depth<=2 and 640 text sizes x 5 prices x 6 revisions x limits; keys: all 256 prefixes, lengths 0..70, 60 keys; signatures: all 256 recovery ids, lengths, zero/overflow/high components, 24 signatures x 4 ids',
    thorough='sizes 0..2100, 300 keys, 200 signatures, JSON values of depth<=3')

P = 2 ** 256 - 2 ** 32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P)
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P)
    x = (m * m - a[0] - b[0]) % P
    return x, (m * (a[0] - x) - a[1]) % P


def mul(k, p=G):
    r = None
    while k:
        if k & 1:
            r = add(r, p)
        p = add(p, p)
        k >>= 1
    return r


def lift(x, odd):
    if x >= P:
        return None
    s = (x * x * x + 7) % P
    y = pow(s, (P + 1) // 4, P)
    if y * y % P != s:
        return None
    return x, y if y & 1 == odd else P - y


def b32(v):
    return v.to_bytes(32, 'big')


def ser(pt, compressed=True):
    return bytes([2 + (pt[1] & 1)]) + b32(pt[0]) if compressed else b'\x04' + b32(pt[0]) + b32(pt[1])


def sign(z, d, k):
    R = mul(k)
    r = R[0] % N
    s = pow(k, -1, N) * (z + r * d) % N
    return r, s, (R[1] & 1) | (2 if R[0] >= N else 0)


def recover(msg, sig):
    if len(msg) != 32 or len(sig) != 65 or sig[64] > 3:
        return None
    r, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:64], 'big')
    if not (0 < r < N and 0 < s < N):
        return None
    x = r + (N if sig[64] & 2 else 0)
    R = lift(x, sig[64] & 1)
    if R is None:
        return None
    z = int.from_bytes(msg, 'big')
    ri = pow(r, -1, N)
    return add(mul(s * ri % N, R), mul(-z * ri % N))


KAT = [('sha3_256', b'', 'a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a'), ('sha3_256', b'abc', '3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532'),
       ('sha_256', b'', 'e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855'), ('sha_256', b'abc', 'ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad')]
PRICES = [0, 1, 9, 10, 10000]
REVS = [0, 255, 256, 257, 512, 0x300]
KEYS = [1, 2, 3, 5, 7, 11, N - 1, N - 2, N // 2, 1 << 128, (1 << 255) - 19, 0xdeadbeef] + [int.from_bytes(hashlib.sha256(bytes([i])).digest(), 'big') % N for i in range(48)]
ODD = [None, 'ab', 5, bytearray(b'ab'), memoryview(b'ab'), [1], ('a',), True, 1.5]


def units(tier):
    T = tier == 'thorough'
    u = [('hash', f, p) for f in ('sha3_256', 'sha_256') for p in PRICES] + [('hodd',), ('kat',)]
    u += [('dumps', r) for r in REVS] + [('loads', r) for r in REVS] + [('size', p) for p in PRICES] + [('badjson',)]
    u += [('prefix', i) for i in range(4)] + [('klen',), ('keys',), ('offcurve',)]
    u += [('recid', i) for i in range(4)] + [('recover', i) for i in range(8)] + [('rlen',), ('rzero',)]
    u += [('mix', i) for i in range(4)]
    if T:
        u += [('keys2', i) for i in range(6)] + [('recover2', i) for i in range(12)] + [('dumps3', i) for i in range(8)]
    return u


def values(depth):
    leaves = [None, True, False, 0, -1, 1 << 70, 1.5, '', 'a', '\u00e9', '"\\\n', '\0', '\U0001f600']
    if depth == 0:
        return leaves
    sub = leaves if depth == 1 else [0, 'a', [], {}, [1], {'k': 1}, [[]], {'a': [1, None]}]
    r = list(leaves)
    r += [[]] + [[x] for x in sub] + [[x, y] for x in sub for y in sub]
    r += [{}] + [{k: x} for x in sub for k in ('', 'k', '\u00e9', ' ')] + [{'a': x, 'b': y} for x in sub for y in sub]
    r += [{'b': 1, 'a': 2}, {'a': {'b': {'c': [1, {'d': None}]}}}]
    return r


def dump(v, compact):
    """JSON text as documented (items in order, ASCII escapes)."""
    c, k = (',', ':') if compact else (', ', ': ')
    if v is None:
        return 'null'
    if v is True or v is False:
        return 'true' if v else 'false'
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, str):
        r = '"'
        for ch in v:
            o = ord(ch)
            if ch in '"\\':
                r += '\\' + ch
            elif ch in '\n\r\t\b\f':
                r += {'\n': '\\n', '\r': '\\r', '\t': '\\t', '\b': '\\b', '\f': '\\f'}[ch]
            elif o < 32 or 126 < o < 0x10000:
                r += '\\u%04x' % o if o != 127 else ch
            elif o >= 0x10000:
                o -= 0x10000
                r += '\\u%04x\\u%04x' % (0xd800 + (o >> 10), 0xdc00 + (o & 0x3ff))
            else:
                r += ch
        return r + '"'
    if isinstance(v, (list, tuple)):
        return '[' + c.join(dump(x, compact) for x in v) + ']'
    return '{' + c.join(dump(x, compact) + k + dump(y, compact) for x, y in v.items()) + '}'


def hcost(p, n):
    return p + p * ((n + 31) // 32) // 10


def jcost(p, ratio, n, rev):
    if not rev & 256:
        return 0
    c = p * ratio // 1000
    return c + c * n // 100


def unit(u, ctx):
    host = Host(ctx)
    T = ctx.tier == 'thorough'

    def call(what, fn, exp, cost, price, rev=0, readonly=False, limits=(0, -1, 1, None)):
        """fn(iconservice) must give exp ('ok', value | 'err', status) and charge cost"""
        for d in limits:
            if d is None:
                limit = 10 ** 12
            else:
                limit = cost + d
                if limit < 0:
                    continue
            got = []

            def p(s):
                got.append(fn(__import__('iconservice')))
                return 7
            ctx.case((what, price, rev, limit))
            o = yield host.inv(p, method='view' if readonly else 'run', limit=limit, costs={'apiCall': price} if price else {}, info=dict(revision=rev), readonly=readonly)
            ctx.transitions += 1
            ctx.state(what, price, rev, limit)
            ctx.outcome(o.status, o.used)
            if limit < cost:
                if o.status != ST['OOS'] or o.used != limit or got:
                    ctx.fail('%r price %d revision %d limit %d (cost %d): status %d used %d result %r' % (what, price, rev, limit, cost, o.status, o.used, got))
                continue
            if exp[0] == 'ok':
                if o.status != 0 or not got or not W.same(norm(got[0]), norm(exp[1])):
                    ctx.fail('%r: gives %r status %d (%r), expected %r' % (what, got, o.status, o.result, exp[1]))
            elif o.status != exp[1] or got:
                ctx.fail('%r: status %d result %r, expected failure %d' % (what, o.status, got, exp[1]))
            if o.used != cost:
                ctx.fail('%r price %d revision %d: charged %d, documented %d' % (what, price, rev, o.used, cost))

    def driver(node):
        k = u[0]
        if k == 'hash':
            f, p = u[1:]
            alg = getattr(hashlib, {'sha3_256': 'sha3_256', 'sha_256': 'sha256'}[f])
            sizes = list(range(331 if not T else 2101)) + [511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32 * 3125 - 1, 32 * 3125, 32 * 3125 + 1]
            for n in sizes:
                for pat in ((0, 0xff, None) if n < 70 else (None,)):
                    data = bytes([pat]) * n if pat is not None else bytes((i * 7 + n) & 0xff for i in range(n))
                    yield from call((f, n, pat), lambda ic: getattr(ic, f)(data), ('ok', alg(data).digest()), hcost(p, n), p, limits=(0, -1, 1, None) if n < 200 else (0, -1))
        elif k == 'hodd':
            for f in ('sha3_256', 'sha_256'):
                for x in ODD:
                    yield from call((f, repr(x)), lambda ic: getattr(ic, f)(x), ('err', ST['PARAM']), 0, 10, limits=(None,))
        elif k == 'kat':
            for f, d, h in KAT:
                for ro in (False, True):
                    yield from call((f, d, ro), lambda ic: getattr(ic, f)(d), ('ok', bytes.fromhex(h)), hcost(10, len(d)), 10, readonly=ro)
            pub = mul(1)
            yield from call('G', lambda ic: ic.create_address_with_key(ser(pub)), ('ok', W.Addr(0, hashlib.sha3_256(b32(G[0]) + b32(G[1])).digest()[-20:])), 150, 10)
        elif k in ('dumps', 'dumps3'):
            rev = u[1] if k == 'dumps' else 256
            vs = values(2) if T or k == 'dumps' else values(1)
            if k == 'dumps3':
                vs = [x for i, x in enumerate(itertools.chain(*[([a, b], {'x': a, 'y': b}) for a in values(1)[::3] for b in values(1)[::5]])) if i % 8 == u[1]]
            else:
                vs = values(1) + values(2)
            for v in vs:
                t = dump(v, bool(rev & 256))
                yield from call(('dumps', v), lambda ic: ic.json_dumps(v), ('ok', t), jcost(100, 5000, len(t.encode()), rev), 100, rev, limits=(0, -1))
        elif k == 'loads':
            rev = u[1]
            for v in values(1) + values(2):
                for t in {dump(v, True), dump(v, False), json.dumps(v, ensure_ascii=False), ' ' + dump(v, True) + '\n'}:
                    yield from call(('loads', t), lambda ic: ic.json_loads(t), ('ok', v), jcost(100, 4000, len(t.encode()), rev), 100, rev, limits=(0, -1))
        elif k == 'size':
            p = u[1]
            for rev in (0, 256):
                for n in list(range(320)) + [399, 400, 401, 999, 1000, 1001, 9999, 10000]:
                    for ch in ('a', '\u00e9'):
                        v = ch * n
                        t = dump(v, bool(rev))
                        yield from call(('dumps size', ch, n), lambda ic: ic.json_dumps(v), ('ok', t), jcost(p, 5000, len(t.encode()), rev), p, rev, limits=(0, -1))
                        raw = '"' + v + '"'
                        yield from call(('loads size', ch, n), lambda ic: ic.json_loads(raw), ('ok', v), jcost(p, 4000, len(raw.encode()), rev), p, rev, limits=(0, -1))
        elif k == 'badjson':
            for rev in (0, 256):
                for x in [None, b'{}', 5, [], {}, bytearray(b'1'), True]:
                    yield from call(('loads', repr(x)), lambda ic: ic.json_loads(x), ('ok', None), 0, 100, rev)
                for t in ['', ' ', '{', '}', '[1,', "{'a':1}", 'nul', 'NULL', '{"a":}', '1 2', '\0', '"', '[,]', '{"a" 1}', 'undefined', '"\n"', '01', '+1', '0x1', '.5', '{1:2}']:
                    yield from call(('loads', t), lambda ic: ic.json_loads(t), ('err', 1), jcost(100, 4000, len(t.encode()), rev), 100, rev, limits=(-1,))
                    # a failed parse has been charged
                    got = []

                    def p(s):
                        ic = __import__('iconservice')
                        try:
                            got.append(ic.json_loads(t))
                        except ValueError:
                            pass
                    ctx.case(('caught', t, rev))
                    o = yield host.inv(p, limit=10 ** 9, costs={'apiCall': 100}, info=dict(revision=rev))
                    if got or o.status != 0 or o.used != jcost(100, 4000, len(t.encode()), rev):
                        ctx.fail('malformed JSON %r revision %d: %r, status %d, charged %d' % (t, rev, got, o.status, o.used))
                for x in [b'a', object, {1, 2}, {b'a': 1}, [b''], 1j]:
                    yield from call(('dumps', repr(x)[:40]), lambda ic: ic.json_dumps(x), ('err', 1), 0, 0, rev, limits=(None,))
        elif k == 'prefix':
            for pre in range(u[1] * 64, u[1] * 64 + 64):
                pt = mul(7)
                comp = bytes([pre]) + ser(pt)[1:]
                full = bytes([pre]) + ser(pt, False)[1:]
                e1 = None
                if pre in (2, 3):
                    e1 = address(lift(pt[0], pre & 1))
                yield from call(('compressed', pre), lambda ic: ic.create_address_with_key(comp), ('ok', e1), 150, 10)
                yield from call(('full', pre), lambda ic: ic.create_address_with_key(full), ('ok', address(pt) if pre == 4 else None), 15, 10)
        elif k == 'klen':
            for n in range(71):
                for pre in (2, 3, 4, 0):
                    key = (bytes([pre]) + ser(mul(7), False)[1:] + bytes(10))[:n]
                    if n in (33, 65):
                        continue
                    yield from call(('length', n, pre), lambda ic: ic.create_address_with_key(key), ('ok', None), 0, 10, limits=(0, None))
            for x in ODD + ['0' * 33, bytearray(33), [2] * 33]:
                yield from call(('type', repr(x)[:30]), lambda ic: ic.create_address_with_key(x), ('ok', None), 0, 10, limits=(0, None))
        elif k in ('keys', 'keys2'):
            ks = KEYS if k == 'keys' else [int.from_bytes(hashlib.sha256(bytes([u[1], i])).digest(), 'big') % N for i in range(50)]
            for d in ks:
                pt = mul(d)
                for p in ((0, 1, 10) if k == 'keys' else (10,)):
                    for c in (True, False):
                        key = ser(pt, c)
                        yield from call(('key', d, c), lambda ic: ic.create_address_with_key(key), ('ok', address(pt)), p * 15000 // 1000 if c else p * 1500 // 1000, p)
        elif k == 'offcurve':
            xs = [0, 1, 2, 3, 4, 5, 6, 7, 8, P - 1, P - 2, P, P + 1, 2 ** 256 - 1, N, N - 1, G[0] + 1, G[0] + 2, G[0] - 1]
            for x in xs:
                for pre in (2, 3):
                    pt = lift(x, pre & 1)
                    key = bytes([pre]) + b32(x)
                    yield from call(('x', x, pre), lambda ic: ic.create_address_with_key(key), ('ok', address(pt) if pt else None), 150, 10)
        elif k == 'recid':
            z = int.from_bytes(hashlib.sha256(b'msg').digest(), 'big')
            r, s, v = sign(z, 12345, 67890)
            for rid in range(u[1] * 64, u[1] * 64 + 64):
                sig = b32(r) + b32(s) + bytes([rid])
                for comp in (True, False):
                    pt = recover(b32(z), sig)
                    if rid == v and pt != mul(12345):
                        raise AssertionError('oracle')
                    yield from call(('recover', rid, comp), lambda ic: ic.recover_key(b32(z), sig, comp), ('ok', ser(pt, comp) if pt else None), 700, 10, limits=(0, -1))
        elif k in ('recover', 'recover2'):
            for i in range(3 if k == 'recover' else 16):
                seed = bytes([u[1], i, len(k)])
                h = lambda t: int.from_bytes(hashlib.sha256(seed + t).digest(), 'big') % N
                z = [0, 1, N, 2 ** 256 - 1, h(b'z')][min(4, u[1])] if i == 0 else h(b'z')
                d, kk = h(b'd') or 1, h(b'k') or 1
                r, s, v = sign(z, d, kk)
                for ss, vv in ((s, v), (N - s, v ^ 1)):
                    sig = b32(r) + b32(ss) + bytes([vv])
                    assert recover(b32(z), sig) == mul(d)
                    for comp, how in ((True, 0), (False, 0), (True, 1)):
                        fn = (lambda ic: ic.recover_key(b32(z), sig, comp)) if not how else (lambda ic: ic.recover_key(b32(z), sig))
                        yield from call((seed, ss == s, comp, how), fn, ('ok', ser(mul(d), comp)), 700, 10, limits=(0, -1))
                    for wrong in range(4):
                        g = b32(r) + b32(ss) + bytes([wrong])
                        pt = recover(b32(z), g)
                        yield from call((seed, 'id', wrong, ss == s), lambda ic: ic.recover_key(b32(z), g), ('ok', ser(pt) if pt else None), 70, 1, limits=(0,))
                    flip = bytes([sig[0] ^ 1]) + sig[1:]
                    pt = recover(b32(z), flip)
                    yield from call((seed, 'flip'), lambda ic: ic.recover_key(b32(z), flip), ('ok', ser(pt) if pt else None), 0, 0, limits=(0,))
        elif k == 'rlen':
            z = b32(99)
            r, s, v = sign(99, 5, 6)
            sig = b32(r) + b32(s) + bytes([v])
            for n in range(0, 70):
                if n != 65:
                    yield from call(('sig length', n), lambda ic: ic.recover_key(z, (sig + bytes(10))[:n]), ('ok', None), 700, 10)
                if n != 32:
                    yield from call(('hash length', n), lambda ic: ic.recover_key((z * 3)[:n], sig), ('ok', None), 700, 10)
            for x in ODD + ['0' * 32, bytearray(32), 'a' * 65, bytearray(sig)]:
                yield from call(('hash type', repr(x)[:40]), lambda ic: ic.recover_key(x, sig), ('ok', None), 700, 10)
                yield from call(('sig type', repr(x)[:40]), lambda ic: ic.recover_key(z, x), ('ok', None), 700, 10)
        elif k == 'rzero':
            z = b32(99)
            r, s, v = sign(99, 5, 6)
            for rr, ss in itertools.product((0, 1, 2, 5, r, N - 1, N, N + 1, P - N - 1, P - N, P, 2 ** 256 - 1), (0, 1, s, N - s, N - 1, N, N + 1, 2 ** 256 - 1)):
                for rid in range(4):
                    sig = b32(rr) + b32(ss) + bytes([rid])
                    pt = recover(z, sig)
                    yield from call(('r', rr, 's', ss, rid), lambda ic: ic.recover_key(z, sig), ('ok', ser(pt) if pt else None), 70, 1, limits=(0, -1))
        elif k == 'mix':
            # several built-ins in one call: charges add up, the first one that does not fit ends it
            pt = mul(9)
            acts = [('sha3', lambda ic: ic.sha3_256(b'x' * 33), hcost(7, 33)), ('sha2', lambda ic: ic.sha_256(b''), hcost(7, 0)), ('dumps', lambda ic: ic.json_dumps([1, 'a']), jcost(7, 5000, 7, 256)),
                    ('loads', lambda ic: ic.json_loads('{"a":[]}'), jcost(7, 4000, 8, 256)), ('addr', lambda ic: ic.create_address_with_key(ser(pt, False)), 7 * 1500 // 1000), ('none', lambda ic: ic.create_address_with_key(b'x'), 0),
                    ('bad', lambda ic: ic.create_address_with_key(b'\x05' * 33), 105), ('rec', lambda ic: ic.recover_key(b'', b''), 490)]
            for seq in itertools.product(acts, repeat=3):
                if (acts.index(seq[0]) & 3) != u[1]:
                    continue
                total = sum(a[2] for a in seq)
                for limit in sorted({0, 1, seq[0][2] - 1, seq[0][2], seq[0][2] + seq[1][2] - 1, seq[0][2] + seq[1][2], total - 1, total, total + 1}):
                    if limit < 0:
                        continue
                    for swallow in (False, True):
                        done = []

                        def p(s):
                            ic = __import__('iconservice')
                            for a in seq:
                                try:
                                    a[1](ic)
                                    done.append(a[0])
                                except BaseException:   # noqa
                                    if not swallow:
                                        raise
                        ctx.case(([a[0] for a in seq], limit, swallow))
                        o = yield host.inv(p, limit=limit, costs={'apiCall': 7}, info=dict(revision=256))
                        used, want, failed = 0, [], False
                        for a in seq:
                            if used + a[2] > limit and not (a[2] == 0):
                                failed = True
                                used = limit
                                if not swallow:
                                    break
                                continue
                            used += a[2]
                            want.append(a[0])
                        ctx.transitions += 3
                        ctx.state([a[0] for a in seq], limit, swallow)
                        st = ST['OOS'] if failed and not swallow else 0
                        if done != want or o.used != used or o.status != st:
                            ctx.fail('ran %r, used %d, status %d; expected %r, %d, %d' % (done, o.used, o.status, want, used, st))
    run_engine(driver, setup=host.setup)
    ctx.sample(dict(unit=u))


def norm(v):
    return from_py(v) if not isinstance(v, W.Addr) else v


def address(pt):
    return W.Addr(0, hashlib.sha3_256(b32(pt[0]) + b32(pt[1])).digest()[-20:])
