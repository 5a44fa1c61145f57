"""C02: storage keys are the canonical, injective hash of (kind tag, name, path).

Every (kind, name, key path) over an alphabet of components with all length-prefix boundaries is written, read and
removed on the real engine; the keys seen by the node are compared with sha3_256(tag || rlp(name) || rlp(key)...).
"""
import hashlib
import itertools

from mc import wire as W
from mc.common import Host, A1, A2, attempt, to_py
from mc.node import run_engine

TECHNIQUE = 'explicit-state model checking: exhaustive enumeration of key paths on the real engine against the storage layout'
BOUNDS = dict(
    quick='3 kinds x 40 names; dictionaries of depth 1 over 40x40 (name, key), depth 2 over 14^3, depth 3 over 8^4; every pair of 20 lengths at every pair of positions up to depth 4; array positions 0..300 and around every int-length boundary up to 2^39; membership prefix for every name',
    thorough='as quick with depth 2 over 24^3, depth 3 over 11^4, depth 4 over 6^5, 16 MiB components')

BYTES = [b'', b'\x00', b'\x01', b'\x7f', b'\x80', b'\x81', b'\xb7', b'\xb8', b'\xff', b'\x00\x80', b'\x81\x61', b'\x80\x80',
         b'a', b'b', b'ab', b'ba', b'aab', b'\x82ab', b'b\x80'] + [bytes([0x61]) * n for n in (54, 55, 56, 57, 127, 128, 183, 184, 255, 256, 257, 65535, 65536)]
TYPED = [0, 1, -1, 127, 128, 255, 256, -128, -129, 2 ** 256, 'a', '\u00e9', 'e\u0301', '\u212b', '\ufb01', 'A', '\U0001f600', W.addr(0, 1), W.addr(1, 1), True]
TAG = {'a': b'\x00', 'd': b'\x01', 'v': b'\x02'}


def comp(k):
    if isinstance(k, W.Addr):
        return k.raw
    if isinstance(k, bool):
        return bytes([k])
    if isinstance(k, int):
        return W.int_enc(k)
    if isinstance(k, str):
        return k.encode('utf-8')
    return k


def skey(kind, name, path=()):
    return hashlib.sha3_256(TAG[kind] + W.rlp(comp(name)) + b''.join(W.rlp(comp(p)) for p in path)).digest()


def units(tier):
    names = BYTES + TYPED
    u = [('names', lo) for lo in range(0, len(names), 8)]
    n2, n3 = (14, 8) if tier == 'quick' else (24, 11)
    u += [('depth', 2, n2, i) for i in range(n2)] + [('depth', 3, n3, i) for i in range(n3)]
    if tier == 'thorough':
        u += [('depth', 4, 6, i) for i in range(6)] + [('huge',)]
    u += [('array',), ('types', 0)]
    u += [('reuse', i) for i in range(8)]
    u += [('long', i, j) for i in range(5) for j in range(i)]
    return u


LENS = [0, 1, 2, 31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 66, 127, 128, 129, 255, 256, 1024]


def of_len(n):
    """Components of n bytes which differ in the first or in the last byte only."""
    return sorted({b'p' * n, (b'p' * n)[:-1] + b'q'[:n], b'q'[:n] + (b'p' * n)[1:]})


SMALL = [b'', b'a', b'ab', b'b', b'\x80', b'\x81\x61', b'\x00', b'\xff'] + [b'\x7f', b'\x82ab', b'x' * 55, b'x' * 56, b'\x01', b'x' * 256,
                                                                           b'ba', b'aab', b'\xb8', b'\xb7', b'b\x80', b'\x80\x80', b'x' * 255, b'x' * 54, b'\x00\x80', b'\x81']


def unit(u, ctx):
    host = Host(ctx)
    seen = {}

    def items():
        if u[0] == 'names':
            names = BYTES + TYPED
            for n in names[u[1]:u[1] + 8]:
                yield 'v', n, ()
                for k in names:
                    yield 'd', n, (k,)
        elif u[0] == 'depth':
            al = SMALL[:u[2]]
            for path in itertools.product(al, repeat=u[1]):
                yield 'd', al[u[3]], path
        elif u[0] == 'huge':
            for n in (b'h' * 2 ** 24, b'h' * (2 ** 24 - 1)):
                yield 'v', n, ()
                yield 'd', b'x', (n,)
                yield 'd', n, (b'x',)
        elif u[0] == 'long':
            # every pair of lengths at every pair of positions of (name, key, key, key, key)
            for m in LENS:
                for n in LENS:
                    for x in of_len(m):
                        for y in of_len(n):
                            c = [b'1', b'2', b'3', b'4', b'5']
                            c[u[1]], c[u[2]] = x, y
                            for d in range(max(u[1], 1), 5) if ctx.tier == 'thorough' else {max(u[1], 1), 4}:
                                yield 'd', c[0], tuple(c[1:d + 1])
        elif u[0] == 'types':
            for k in TYPED + BYTES:
                for t in ('a', b'a', 97, W.addr(1, 97)):
                    yield 'd', t, (k, k)

    def check(kind, name, path, keys):
        want = skey(kind, name, path)
        if keys != {want}:
            ctx.fail('%s name=%r path=%r: node saw keys %s, layout says %s' % (
                kind, short(name), [short(x) for x in path], sorted(k.hex() for k in keys), want.hex()))
        ident = (kind, comp(name), tuple(comp(p) for p in path))
        h = tuple(hashlib.blake2b(x, digest_size=12).digest() if isinstance(x, bytes) and len(x) > 100 else x
                  for x in (ident[0], ident[1]) + ident[2])
        if seen.setdefault(want, h) != h:
            ctx.fail('two entries share one key: %r and %r' % (seen[want], h))
        ctx.state(want)

    def driver(node):
        todo = list(items())
        for lo in range(0, len(todo), 200):
            part = todo[lo:lo + 200]
            got = []

            def prog(score):
                from iconservice import VarDB, DictDB
                fr = node.frames[-1]

                def tr(fn):
                    i = len(fr.trace)
                    r = attempt(fn)
                    keys = set()
                    for t in fr.trace[i:]:
                        keys.add(t[1] if t[0] in ('get', 'set') else repr(t).encode())
                    got.append((r, keys))
                for kind, name, path in part:
                    n = to_py(name)
                    p = [to_py(x) for x in path]
                    if kind == 'v':
                        v = VarDB(n, score.db, bytes)
                        tr(lambda: v.set(b'Z'))
                        tr(lambda: v.get())
                        tr(lambda: v.remove())
                    else:
                        d = DictDB(n, score.db, bytes, len(p))
                        for x in p[:-1]:
                            d = d[x]
                        tr(lambda: d.__setitem__(p[-1], b'Z'))
                        tr(lambda: d[p[-1]])
                        tr(lambda: d.__delitem__(p[-1]))
                    tr2 = len(fr.trace)
            ctx.case((u, lo))
            o = yield host.inv(prog, at=A1 if lo % 400 else A2)
            if o.status != 0 or len(got) != 3 * len(part):
                ctx.fail('invocation failed %r %r' % (o.status, o.result))
                return
            for (kind, name, path), a, b, c in zip(part, got[0::3], got[1::3], got[2::3]):
                if (a[0], b[0], c[0]) != (('ok', None), ('ok', b'Z'), ('ok', None)):
                    ctx.fail('%r %r %r: set/get/remove gave %r' % (kind, short(name), path, (a[0], b[0], c[0])))
                for x in (a, b, c):
                    check(kind, name, path, x[1])
                ctx.transitions += 3
            if any(node.stores.get(a) for a in (A1, A2)):
                ctx.fail('entries left after removal: %r' % (node.stores,))
        if todo:
            ctx.sample(dict(unit=repr(u), entries=len(todo), last=repr(short(todo[-1]))))

    def arrays(node):
        from iconservice import ArrayDB
        sizes = list(range(0, 301)) + [32766, 32767, 32768, 65534, 65535, 65536, 8388607, 8388608, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 39]
        for name in BYTES + TYPED:
            n = to_py(name)
            full = name in (b'a', 0) or not isinstance(name, (bytes, int))
            for size in (sizes if full else (0, 127, 128, 255, 256)):
                base = skey('a', name)
                ctx.case(('array', repr(short(name)), size))
                node.stores = {A1: {base: W.int_enc(size)} if size else {}}
                got = []

                def prog(score):
                    a = ArrayDB(n, score.db, bytes)
                    a.put(b'E')
                    got.append(a[size])
                    got.append(a[-1])
                    a[size] = b'F'
                    got.append(len(a))
                    if size == 0:
                        got.append(b'F' in a)
                        got.append(b'G' in a)
                o = yield host.inv(prog)
                if o.status or got != [b'E', b'E', size + 1] + ([True, False] if size == 0 else []):
                    ctx.fail('array %r at size %d: %r %r' % (short(name), size, o.brief(), got))
                el = skey('a', name, (size,))
                want = {base: W.int_enc(size + 1), el: b'F'}
                if node.stores[A1] != want:
                    ctx.fail('array %r size %d: stored %r, want %r' % (short(name), size, hx(node.stores[A1]), hx(want)))
                for t in o.frame.trace:
                    if t[0] in ('get', 'set') and t[1] not in want:
                        ctx.fail('array %r size %d: foreign key %s' % (short(name), size, t[1].hex()))
                    if t[0] == 'contains' and t[1] != b'\x00' + W.rlp(comp(name)):
                        ctx.fail('array %r: membership prefix %s' % (short(name), t[1].hex()))
                if size == 0 and not any(t[0] == 'contains' for t in o.frame.trace):
                    ctx.note('membership without CONTAINS')

                def pop(score):
                    got.append(ArrayDB(n, score.db, bytes).pop())
                o = yield host.inv(pop)
                if o.status or got[-1] != b'F' or el in node.stores[A1] or node.stores[A1].get(base) != W.int_enc(size):
                    ctx.fail('array %r pop at %d: %r %r' % (short(name), size, o.brief(), hx(node.stores[A1])))
                ctx.transitions += 5
                ctx.state('array', base, size)
    def reuse(node):
        # intermediate dictionaries are kept and used in every order; keys never depend on what was used before
        paths = list(itertools.product((b'a', b'b'), repeat=3))
        n = 3 if ctx.tier == 'quick' else 4
        for rest in itertools.product(paths, repeat=n - 1):
            for keep in (0, 1, 2, 3):
                seq = (paths[u[1]],) + rest
                ctx.case(('reuse', seq, keep))
                keys = []

                def prog(s):
                    from iconservice import DictDB
                    fr = node.frames[-1]
                    subs = {(): DictDB('n', s.db, int, 3)}

                    def sub(p):
                        if p not in subs or (p and not (keep & 1 << len(p) - 1)):
                            subs[p] = sub(p[:-1])[p[-1]]
                        return subs[p]
                    for i, p in enumerate(seq):
                        k = len(fr.trace)
                        d = sub(p[:2])
                        if i % 2:
                            x = d[p[2]]
                        else:
                            d[p[2]] = 5
                        keys.append({t[1] for t in fr.trace[k:]})
                o = yield host.inv(prog)
                want = [{skey('d', 'n', p)} for p in seq]
                if o.status or keys != want:
                    ctx.fail('paths %r (kept sub-dictionaries %d): keys %r instead of %r (%r)' % (seq, keep, keys, want, o.brief()))
                ctx.transitions += len(seq)
                ctx.state('reuse', seq, keep)
    run_engine(arrays if u[0] == 'array' else reuse if u[0] == 'reuse' else driver, setup=host.setup)


def short(x):
    if isinstance(x, (bytes, str)) and len(x) > 40:
        return '%d bytes' % len(x)
    return x


def hx(d):
    return {k.hex(): v.hex() for k, v in d.items()}
