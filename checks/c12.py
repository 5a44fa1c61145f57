"""C12: addresses have one identity across text, bytes and hashing.

All addresses/texts/byte strings of a bounded family go through the real Address class and, for the message level, through
the real engine (parameters, results, storage, sender/owner/own address, balance and call targets).
"""
import itertools

from mc import wire as W
from mc.common import A1, to_py, from_py, Host, ST
from mc.node import run_engine, Invoke, fresh

TECHNIQUE = 'model checking: exhaustive enumeration of addresses, texts and byte strings of a bounded family through the real Address class and engine'
BOUNDS = dict(
    quick='every value of every body byte over 2 backgrounds x 2 kinds; every single substitution (256+ characters), deletion, insertion and every pair of substitutions over 14 confusable characters of valid texts; all byte lengths 0..42, all 256 first bytes; all pairs of 136 addresses; 136 addresses x 9 message roles',
    thorough='pairs of substitutions over 30 characters, 3 backgrounds; all pairs of 500 addresses')

CONF = ['0', '9', 'a', 'f', 'g', 'A', 'F', 'G', 'h', 'c', 'x', 'X', ' ', '\n', '\0', '-', '_', '\t', '\r', '\u0660', '\uff10', '\uff41', '\u0131', '\u00b2', '\x1f', ':', '/', '`', '@', '.', '+', '\x85', '\u2028']
HEX = '0123456789abcdef'
TEXTS = ['hx' + 'a1' * 20, 'cx' + '0' * 40, 'hx' + '0123456789abcdef' * 2 + '01234567', 'cx' + 'f' * 40]


def valid(t):
    return isinstance(t, str) and len(t) == 42 and t[:2] in ('hx', 'cx') and all(c in HEX for c in t[2:])


def family(tier):
    r = []
    bodies = [bytes(20), b'\xff' * 20, b'\x01' + bytes(19), bytes(19) + b'\x01', bytes(range(20)), b'\x80' + bytes(19), bytes(19) + b'\x80', b'\x00\x01' + bytes(18)]
    step = 1 if tier == 'thorough' else 4
    for i in range(20):
        for v in ((1, 0x7f, 0x80, 0xff) if tier != 'thorough' else (1, 2, 0x0f, 0x10, 0x20, 0x61, 0x7f, 0x80, 0x81, 0xfe, 0xff))[::1]:
            if step > 1 and v not in (1, 0xff) and i % step:
                continue
            b = bytearray(20)
            b[i] = v
            bodies.append(bytes(b))
    seen = set()
    for b in bodies:
        for k in (0, 1):
            if (k, b) not in seen:
                seen.add((k, b))
                r.append(W.Addr(k, b))
    return r


def units(tier):
    u = [('bytes', k, i) for k in (0, 1) for i in range(20)]
    u += [('subst', i) for i in range(len(TEXTS))] + [('indel', i) for i in range(len(TEXTS))]
    u += [('pair', i, p) for i in range(2) for p in range(42)]
    u += [('raw',), ('eq',), ('ctor',), ('derive',), ('legacy',)]
    u += [('msg', i) for i in range(8)]
    return u


def unit(u, ctx):
    if u[0] == 'msg':
        return msg(u, ctx)
    fresh()
    from iconservice import Address, AddressPrefix
    from pyexec.base.exception import IconServiceBaseException, InvalidParamsException
    from pyexec.base import address as am
    thorough = ctx.tier == 'thorough'

    def text(t):
        ctx.case(('text', t))
        ctx.transitions += 1
        ctx.state(t)
        good = valid(t)
        if isinstance(t, str):
            v = am.is_icon_address_valid(t)
            if bool(v) != good:
                ctx.fail('is_icon_address_valid(%r) gives %r' % (t, v))
        try:
            a = Address.from_string(t)
        except InvalidParamsException as e:
            if good:
                ctx.fail('%r refused: %r' % (t, e))
            if int(e.code) != ST['PARAM']:
                ctx.fail('%r refused with code %r' % (t, e.code))
            ctx.outcome('bad')
            return
        except BaseException as e:     # noqa
            return ctx.fail('%r gives %s: %s' % (t, type(e).__name__, e))
        if not good:
            return ctx.fail('malformed text %r accepted as %r' % (t, a))
        w = W.Addr(('hx', 'cx').index(t[:2]), bytes.fromhex(t[2:]))
        one(a, w)
        ctx.outcome(w)

    def one(a, w):
        """a is the same address as w in every respect"""
        if int(a.prefix) != w[0] or not isinstance(a.prefix, AddressPrefix) or type(a.body) is not bytes or a.body != w[1]:
            ctx.fail('%s has kind %r body %r' % (w, a.prefix, a.body))
        if str(a) != w.text or repr(a) != w.text or '%s' % a != w.text or f'{a}' != w.text:
            ctx.fail('%s prints as %r' % (w, str(a)))
        if a.to_bytes() != w.raw or type(a.to_bytes()) is not bytes:
            ctx.fail('%s has bytes %r' % (w, a.to_bytes()))
        if a.is_contract is not (w[0] == 1):
            ctx.fail('%s is_contract %r' % (w, a.is_contract))
        others = [Address.from_bytes(w.raw), Address.from_string(w.text), Address(AddressPrefix(w[0]), w[1])]
        if w[0] == 0:
            others.append(Address.from_bytes(w[1]))
        for b in others:
            if not (a == b) or (a != b) or hash(a) != hash(b) or len({a, b}) != 1 or {a: 1}.get(b) != 1 or str(b) != w.text or a not in [b]:
                ctx.fail('%s differs from its copy %r' % (w, b))

    k = u[0]
    if k == 'bytes':
        for bg in (0, 0xff, 0x5a)[:3 if thorough else 2]:
            for v in range(256):
                b = bytearray([bg]) * 20
                b[u[2]] = v
                w = W.Addr(u[1], bytes(b))
                ctx.case(w)
                ctx.transitions += 3
                ctx.state(w)
                one(Address.from_bytes(w.raw), w)
                one(Address(AddressPrefix(w[0]), w[1]), w)
                one(Address.from_string(w.text), w)
                if w[0] == 0:
                    one(Address.from_bytes(w[1]), w)
                ctx.outcome(w)
    elif k == 'subst':
        t = TEXTS[u[1]]
        text(t)
        for p in range(42):
            for c in [chr(i) for i in range(256)] + CONF:
                text(t[:p] + c + t[p + 1:])
        for f in (str.upper, str.title, str.swapcase, lambda s: s[:2].upper() + s[2:], lambda s: s[:2] + s[2:].upper(), lambda s: s[::-1], str.encode,
                  lambda s: s + '\n', lambda s: '\n' + s, lambda s: '0x' + s, lambda s: s[2:], lambda s: s[2:] + s[:2], lambda s: s[:2] + '0x' + s[4:], lambda s: s * 2, lambda s: None,
                  lambda s: 5, lambda s: [s], lambda s: s[2:].encode(), lambda s: bytearray(s, 'ascii'), lambda s: tuple(s), lambda s: list(s)):
            text(f(t))
    elif k == 'indel':
        t = TEXTS[u[1]]
        for n in range(46):
            text(t[:n])
            text((t * 2)[:n])
            text(t[:2] + 'a' * (n - 2 if n >= 2 else 0))
            text(t[-n:])
        for p in range(43):
            for c in CONF + list('12345678bde'):
                text(t[:p] + c + t[p:])            # 43 characters
                text(t[:p] + c + t[p:][:-1])       # 42 characters, shifted
                text((t[:p] + c + t[p:])[1:])
            text(t[:p] + t[p + 1:])
            text(t[:p] + t[p + 1:] + '0')
    elif k == 'pair':
        t, p = TEXTS[u[1]], u[2]
        cs = CONF if thorough else CONF[:14]
        for q in range(p):
            for a, b in itertools.product(cs, repeat=2):
                text(t[:q] + a + t[q + 1:p] + b + t[p + 1:])
    elif k == 'raw':
        for n in range(43):
            for pat in (0, 1, 0xff):
                b = bytes([pat]) * n
                ctx.case(('raw', b))
                ctx.transitions += 1
                ctx.state(b)
                raw(ctx, Address, b, one)
        for f in range(256):
            for body in (bytes(20), b'\xff' * 20, bytes(range(20))):
                ctx.case(('raw', f, body))
                ctx.transitions += 1
                raw(ctx, Address, bytes([f]) + body, one)
        for x in (None, 'hx' + '0' * 40, 5, [0] * 21, tuple(range(21)), 'a' * 21, 'a' * 20):
            ctx.case(('raw', repr(x)))
            try:
                r = Address.from_bytes(x)
            except BaseException:   # noqa
                r = None
            if r is not None:
                ctx.fail('from_bytes(%r) gives %r' % (x, r))
    elif k == 'eq':
        fam = family(ctx.tier)
        objs = [to_py(w) for w in fam]
        ctx.case('distinct')
        if len(set(objs)) != len(fam) or len({o.to_bytes() for o in objs}) != len(fam) or len({str(o) for o in objs}) != len(fam):
            ctx.fail('distinct addresses collapse')
        for i, a in enumerate(objs):
            for j, b in enumerate(objs):
                ctx.case((fam[i], fam[j]))
                ctx.transitions += 1
                ctx.state(i, j)
                if (a == b) != (i == j) or (a != b) != (i != j):
                    ctx.fail('%s == %s gives %r/%r' % (a, b, a == b, a != b))
            for x in (fam[i].text, fam[i].raw, fam[i][1], None, 0, fam[i], (a.prefix, a.body), object()):
                if a == x or not (a != x) or x == a:
                    ctx.fail('%s equals %r' % (a, x))
            d = {o: n for n, o in enumerate(objs)}
            if d[a] != i or a not in d:
                ctx.fail('dictionary lookup of %s' % a)
    elif k == 'ctor':
        for p, b in itertools.product((AddressPrefix.EOA, AddressPrefix.CONTRACT, 0, 1, None, 'hx', True),
                                      [bytes(n) for n in range(43)] + [None, 'a' * 20, bytearray(20), [0] * 20, 0]):
            ctx.case((repr(p), repr(b)))
            ctx.transitions += 1
            ctx.state(repr(p), repr(b))
            good = type(p) is AddressPrefix and type(b) is bytes and len(b) == 20
            try:
                one(Address(p, b), W.Addr(int(p), b))
                if not good:
                    ctx.fail('accepted')
            except InvalidParamsException:
                if good:
                    ctx.fail('refused')
            except AssertionError:
                ctx.fail('accepted')
        for s in ('hx', 'cx', 'HX', 'Cx', '', 'h', 'hx ', 'hxx', 'ax', None, 0, b'hx'):
            ctx.case(('prefix', s))
            try:
                r = AddressPrefix.from_string(s)
            except InvalidParamsException:
                r = None
            exp = {'hx': 0, 'cx': 1}.get(s)
            if (r is None) != (exp is None) or (r is not None and (int(r) != exp or str(r) != s)):
                ctx.fail('AddressPrefix.from_string(%r) gives %r' % (s, r))
    elif k == 'legacy':
        # legacy addresses with bodies of any length have one identity too
        bodies = sorted({p + b for p in (b'', b'\0', b'\0\0', b'\1') for b in (b'', b'\0' * 19, b'\1' * 18, b'\1' * 20, b'\xff' * 19, bytes(range(20)))}
                        | {bytes(n) for n in range(43)})
        objs = []
        for kind in (0, 1):
            for b in bodies:
                objs.append((kind, b, Address(AddressPrefix(kind), b, True)))
                objs.append((kind, b, am.MalformedAddress(AddressPrefix(kind), b)))
                text_ = ('hx', 'cx')[kind] + b.hex()
                if kind == 0:       # the legacy form is for accounts only
                    try:
                        objs.append((kind, b, am.MalformedAddress.from_string(text_)))
                    except BaseException:   # noqa
                        if valid(text_):
                            ctx.fail('%r refused' % text_)
                if len(b) == 20:
                    objs.append((kind, b, Address.from_bytes(bytes([kind]) + b)))
                    one(objs[-1][2], W.Addr(kind, b))
                    one(objs[-2][2], W.Addr(kind, b))
        for n, b, a in objs:
            ctx.case(('legacy', n, b))
            if int(a.prefix) != n or a.body != b or a.is_contract is not (n == 1) or a.to_bytes() != bytes([n]) + b or str(a) != ('hx', 'cx')[n] + b.hex():
                ctx.fail('legacy address %r' % (str(a),))
            for n2, b2, a2 in objs:
                ctx.transitions += 1
                same = (n, b) == (n2, b2)
                if (a == a2) is not same or (a != a2) is same or (same and hash(a) != hash(a2)) or len({a, a2}) != (1 if same else 2):
                    ctx.fail('%r (%s) and %r (%s): equal %r' % (str(a), type(a).__name__, str(a2), type(a2).__name__, a == a2))
            ctx.state('legacy', n, b)
    elif k == 'derive':
        import hashlib
        for kind in (0, 1):
            for d in [bytes(n) for n in range(0, 300, 7)] + [bytes([i]) for i in range(256)]:
                ctx.case((kind, d))
                ctx.transitions += 1
                ctx.state(kind, d)
                one(Address.from_data(AddressPrefix(kind), d), W.Addr(kind, hashlib.sha3_256(d).digest()[-20:]))
            for i in range(0, 158):
                for v in ((1 << i) - 1, 1 << i):
                    ctx.case((kind, v))
                    one(Address.from_prefix_and_int(AddressPrefix(kind), v), W.addr(kind, v))


def raw(ctx, Address, b, one):
    good = (len(b) == 21 and b[0] in (0, 1)) or len(b) == 20
    try:
        a = Address.from_bytes(b)
    except BaseException as e:   # noqa
        if good:
            ctx.fail('from_bytes(%s) gives %r' % (b.hex(), e))
        return
    if a is None:
        if good:
            ctx.fail('from_bytes(%s) gives None' % b.hex())
        return
    if not good:
        return ctx.fail('malformed bytes %s give %r' % (b.hex(), a))
    one(a, W.Addr(b[0], b[1:]) if len(b) == 21 else W.Addr(0, b))


def msg(u, ctx):
    fam = family(ctx.tier)[u[1]::8]
    host = Host(ctx)

    def driver(node):
        from iconservice import VarDB, DictDB, ArrayDB, Address
        for w in fam:
            ctx.case(w)
            ctx.state(w)
            ctx.transitions += 9
            got = {}

            def p(s):
                db = s.__dict__['_mc_db']
                a = got['param']
                got['same'] = [from_py(x) for x in (s.msg.sender, s.tx.origin, s.owner)]
                got['eq'] = s.msg.sender == a and s.tx.origin == a and s.owner == a and len({a, s.msg.sender, s.tx.origin, s.owner}) == 1
                v = VarDB('v', db, Address)
                v.set(a)
                d = DictDB('d', db, int)
                d[a] = 5
                r = ArrayDB('r', db, Address)
                r.put(a)
                b = v.get()
                got['stored'] = [from_py(b), from_py(r[0]), d[s.msg.sender], b == a, a in r]
                r.pop()
                got['balance'] = s.icx.get_balance(a)
                s.call(a, 'foo', {'x': a}, 0)
                return [a, {'k': a}]
            host.prog(0, p)

            def run0(s, i, method):
                got['param'] = i
                return p(s)
            host.h.run = run0

            def on_call(node, fr, info):
                got['call'] = (info['to'], info['params'])
                return ('reply', 0, 0, w)
            node.on_call = on_call
            node.balances = {w: 77}
            c = host.contracts[A1]
            c.owner = w
            for form, raws in (('obj', None), ('raw20', W.any_enc([w])), ):
                if form == 'raw20':
                    if w[0] != 0:
                        continue
                    raws = [W.LIST, [[W.ADDRESS, w[1]]]]
                got.clear()
                o = yield Invoke(c, 'run', [w], frm=w, info=dict(txfrom=w), raw_params=raws)
                exp = dict(same=[w, w, w], eq=True, stored=[w, w, 5, True, True], balance=77)
                bad = {k: (got.get(k), v) for k, v in exp.items() if got.get(k) != v}
                if o.status != 0 or bad or got.get('call') is None or got['call'][0] != w or got['call'][1] not in ({'x': w}, {'.': [], 'x': w}) \
                        or o.result != [w, {'k': w}]:
                    ctx.fail('%s (%s): status %d result %r observed %r differing %r' % (w, form, o.status, o.result, got, bad))
                ctx.outcome(w, form)
    run_engine(driver, setup=host.setup)
