"""C05: exactly one answer per request, whatever the contract does; nothing of a finished call influences another.

A menu of requests (well behaved, every kind of misbehaviour, load failures, API requests, nested calls) is run on the
real engine (over a real socket pair, the node in its own thread). Each entry's outcome as the first request of a fresh
engine is the reference; then all pairs (and triples/longer words over smaller menus) of entries run on one engine and
every outcome must equal its reference. Messages are checked for well-formedness and order by the node.
"""
import copy
import itertools
import os
import pickle

from mc import wire as W
from mc.common import Host, A1, A2, A3, EOA1, to_py
from mc.run import Ctx, Scores
from mc.node import GetApi, Invoke, Contract, Problem, run_engine, DEFAULT_COSTS_V1, DEFAULT_COSTS_V0

TECHNIQUE = 'explicit-state model checking: exhaustive words over a menu of (mis)behaving requests on the real engine, each outcome compared with the same request on a fresh engine'
BOUNDS = dict(
    quick='~490 requests as first request of a fresh engine; every ordered pair of a request and one of 66 probes, both orders, every word of length 3 over 14, of length 5 over 5; recursion exhaustion at every depth in a window of 60 with 0..3 pending writes; caught nested misbehaviour; up to 2500 writes without a read against bounded buffers; values of 3 and 10 MiB in 9 roles',
    thorough='every ordered pair of the ~490 requests; words of length 3 over 30 requests, 4 over 10, 6 over 5; recursion window of 140')

K = b'k' * 3


# -- misbehaving values -------------------------------------------------------------------------------------------
def exc_makers():
    import iconservice as ic

    def cls(base, **attrs):
        return type('E', (base,), attrs)

    def boom(*a, **k):
        raise ValueError('boom')

    def rv(*a, **k):
        ic.revert('inner', 9)

    def kbd(*a, **k):
        raise KeyboardInterrupt()
    base = ic.IconScoreException.__mro__[1]
    r = {}
    for n, e in dict(value=lambda: ValueError('x'), kbd=KeyboardInterrupt, exit=lambda: SystemExit(3), exit0=lambda: SystemExit(0), gen=GeneratorExit,
                     stop=StopIteration, mem=MemoryError, rec=lambda: RecursionError('r'), base=BaseException, asrt=lambda: AssertionError('a'),
                     oserr=lambda: OSError(9, 'bad'), broken=BrokenPipeError, eof=EOFError, surr=lambda: ValueError('\ud800'), big=lambda: ValueError('b' * 70000),
                     group=lambda: BaseExceptionGroup('g', [ValueError(1), KeyboardInterrupt()]), timeout=TimeoutError).items():
        r['raise:' + n] = (e, 1)
    r['raise:strboom'] = (cls(ValueError, __str__=boom), 1)
    r['raise:reprboom'] = (cls(ValueError, __repr__=boom, __str__=lambda s: 'fine'), 1)
    r['raise:strrevert'] = (cls(ValueError, __str__=rv, __repr__=rv), 1)
    r['raise:strkbd'] = (cls(BaseException, __str__=kbd, __repr__=kbd), 1)
    r['raise:strnone'] = (cls(ValueError, __str__=lambda s: None), 1)
    r['raise:iserr'] = (lambda: ic.IconScoreException('m', 4), 36)
    r['raise:baseok'] = (lambda: base('m'), 'fail')
    for n, c in dict(zero=0, str='a', none=None, k=1000, crit=7001, exec=1008, flag=1 << 24 | 2, neg=-1, big=2 ** 70, flt=1.5, boom='!').items():
        for bn, b in (('s', lambda: ic.IconScoreException), ('b', lambda: base)):
            pr = property(boom) if c == '!' else property(lambda s, c=c: c)
            r['code:%s:%s' % (bn, n)] = ((lambda b=b, pr=pr: cls(b(), code=pr)('m')), 1)
    for n, m in dict(none=None, bytes=b'\xff', dict={'a': 1}, obj=object(), list=[1], int=5, surr='\udfff', boom='!').items():
        pr = property(boom) if m == '!' else property(lambda s, m=m: m)
        r['msg:%s' % n] = ((lambda pr=pr: cls(ic.IconScoreException, message=pr)('m')), 'fail')
    return r


def bad_results():
    import iconservice as ic

    def boom(*a, **k):
        raise ValueError('boom')

    def rv(*a, **k):
        ic.revert('inner', 9)

    def sub(base, val, **attrs):
        return lambda: type('X', (base,), attrs)(val)

    def loop_list():
        x = []
        x.append(x)
        return x

    def loop_dict():
        x = {}
        x['a'] = x
        return x

    def deep(n):
        x = []
        for _ in range(n):
            x = [x]
        return x

    class Liar:
        __class__ = property(boom)

    class Liar2:
        __class__ = property(lambda s: dict)

    class Liar3:
        __class__ = property(rv)
    A = ic.Address
    a0 = to_py(A1)

    def addr_sub(**attrs):
        return type('AX', (A,), attrs)(a0.prefix, a0.body)
    r = dict(obj=object, set=lambda: {1}, flt=lambda: 1.5, bytearray=lambda: bytearray(b'x'), intkey=lambda: {1: 2}, loopl=loop_list, loopd=loop_dict,
             gen=lambda: (x for x in [1]), surr=lambda: '\ud800', deep600=lambda: deep(600), deep3000=lambda: deep(3000),
             items_rv=sub(dict, {'a': 1}, items=rv), items_boom=sub(dict, {'a': 1}, items=boom), items_junk=sub(dict, {'a': 1}, items=lambda s: [('b', object())]),
             iter_rv=sub(list, [1], __iter__=rv), len_boom=sub(list, [1], __len__=boom), enc_rv=sub(str, 's', encode=rv), enc_int=sub(str, 's', encode=lambda *a: 5),
             tb_str=sub(int, 7, to_bytes=lambda *a, **k: 'zz'), bl=sub(int, 7, bit_length=lambda s: -50), add=sub(int, 7, __add__=lambda s, o: 'q', __lt__=rv),
             bytes_len=sub(bytes, b'ab', __len__=boom), addr_tb=lambda: addr_sub(to_bytes=lambda s: 'bad'), addr_body=lambda: addr_sub(body=property(lambda s: b'short')),
             addr_rv=lambda: addr_sub(body=property(rv)), mal=lambda: A(a0.prefix, b'abc', True), liar=Liar, liar2=Liar2, liar3=Liar3,
             repr_rv=lambda: type('R', (list,), {'__repr__': rv, '__str__': rv})([1]),
             type=lambda: int, tup=lambda: (1, 'a'), true=lambda: True, key_sub=lambda: {type('KS', (str,), {'__hash__': lambda s: 1, 'encode': rv})('kk'): 1})
    return r


def setup_vars(s):
    from iconservice import VarDB, ArrayDB, DictDB
    return VarDB('v', s.db, int), VarDB('w', s.db, bytes), DictDB('d', s.db, str)


class Menu:
    def __init__(self, ctx):
        self.ctx = ctx
        self.host = Host(ctx)
        self.items = {}     # name -> (request factory, expectation)
        self.n = 0
        self.build()

    def prog(self, fn):
        self.n += 1
        self.host.prog(self.n, fn)
        return self.n

    def add(self, name, fn, expect=None, method='run', at=A1, **k):
        i = self.prog(fn)
        c = self.host.contracts[at]
        assert name not in self.items, name
        self.items[name] = ((lambda: Invoke(c, method, [i], **dict(k))), expect)
        return i

    def req(self, name, mk, expect=None):
        self.items[name] = (mk, expect)

    def build(self):
        add, V1 = self.add, DEFAULT_COSTS_V1
        host = self.host
        for n, v in dict(one=1, none=None, str='x', bytes=b'', map={'a': [1, None]}, addr=A1).items():
            add('ok:' + n, lambda s, v=v: to_py(v), 0)
        add('ok:view', lambda s: 5, 0, method='view')
        add('ok:pay', lambda s: s.msg.value, 0, method='pay', value=3, frm=EOA1)
        excs = exc_makers()
        for n in excs:
            add(n, lambda s, mk=excs[n][0]: (_ for _ in ()).throw(mk()) if False else raise_(mk()), excs[n][1])
        res = bad_results()
        for n in res:
            add('res:' + n, lambda s, mk=res[n]: mk())

        def rec(s, n=0):
            return rec(s, n + 1)
        add('rec', rec, 1)

        # -- pending writes, then an end
        ends = dict(ret=lambda s: 'done', rev=lambda s: __import__('iconservice').revert('r', 2), exc=lambda s: raise_(KeyError('k')), rec=rec,
                    res=lambda s: object(), kbd=lambda s: raise_(KeyboardInterrupt()))
        for k in (1, 4, 5, 6, 8):
            for e in ends:
                if k in (4, 8) and e not in ('ret', 'rev'):
                    continue

                def p(s, k=k, e=e):
                    v, w, d = setup_vars(s)
                    for j in range(k):
                        if j % 3 == 2:
                            v.remove()
                        else:
                            v.set(j)
                    return ends[e](s)
                add('w%d:%s' % (k, e), p, 0 if e == 'ret' else ('fail' if e != 'rev' else 34), costs=V1)  # noqa

        # -- out of steps: limits around writes
        def spend(s):
            v, w, d = setup_vars(s)
            v.set(1)
            w.set(b'abc')
            v.get()
            s.Ev(1, 'e')
            w.remove()
            v.remove()
            d['k'] = 'z'
            return 'spent'

        def swallow(s):
            v, w, d = setup_vars(s)
            n = 0
            for f in (lambda: v.set(1), lambda: w.set(b'abc'), lambda: v.get(), lambda: s.Ev(1, 'e'), lambda: w.remove(), lambda: v.remove(), lambda: v.set(4)):
                try:
                    f()
                except BaseException:
                    n += 1
            return n
        for lim in (0, 4999, 5320, 10000, 11280, 13361, 19000, 23000, 30000):
            add('oos:%d' % lim, spend, None, costs=V1, limit=lim)
            add('sw:%d' % lim, swallow, None, costs=V1, limit=lim)
        add('oos:v0', spend, None, costs=DEFAULT_COSTS_V0, limit=1000)
        add('neglimit', spend, None, costs=V1, limit=-5)

        # -- read-only
        add('ro:write', spend, 'fail', readonly=True)
        add('ro:swallow', swallow, 0, readonly=True)
        add('ro:view', swallow, 0, method='view')

        # -- nested
        def nest(to, i, caught, method='run', amount=0):
            def p(s):
                v, w, d = setup_vars(s)
                v.set(77)
                try:
                    r = s.call(to_py(to), method, {'i': i}, amount)
                except BaseException as e:
                    if not caught:
                        raise
                    r = 'caught %s' % getattr(e, 'code', '?')
                return [r if not isinstance(r, bytes) else 'b', v.get()]
            return p
        names = list(self.items)
        for n in names:
            if n.startswith(('ro:', 'neg')) or n in ('ok:view', 'ok:pay', 'res:deep3000'):
                continue
            i = self.n_of(n)
            add('nest:' + n, nest(A2, i, True), None if n.endswith(':res') else 0, costs=V1 if n[:3] in ('oos', 'sw:') or n[0] == 'w' else None)
            if n.split(':')[0] in ('raise', 'w5', 'rec', 'oos') or n in ('res:items_rv', 'res:obj'):
                add('nestun:' + n, nest(A2, i, False), None, costs=V1)
        add('reent:self', nest(A1, self.n_of('w5:rev'), True), 0, costs=V1)
        add('nest:view', nest(A2, self.n_of('sw:30000'), True, method='view'), 0)
        add('nest:nometh', nest(A2, 1, True, method='nope'), 0)
        add('nest:internal', nest(A2, 1, True, method='_IconScoreBase__call'), 0)
        add('nest:methint', nest(A2, 1, True, method=5), 0)
        me = self.n + 1

        def selfrec(s):
            return s.call(s.address, 'run', {'i': me})
        add('selfrec', selfrec, 'fail')

        def selfrec2(s):
            v, w, d = setup_vars(s)
            v.set(1)
            w.remove()
            try:
                return s.call(s.address, 'run', {'i': me2})
            except BaseException as e:
                return 'end'
        me2 = self.n + 1
        add('selfrec2', selfrec2, 0)

        # -- malformed uses of the interface to the node
        bad_addr = dict(str='cx' + '0' * 40, none=None, int=5, b3=b'abc', b21=b'\x01' + bytes(20), short=lambda: mal(3), long=lambda: mal(25), sub=lambda: addr_liar())

        def mal(n):
            from iconservice import Address, AddressPrefix
            return Address(AddressPrefix(1), b'x' * n, True)

        def addr_liar():
            from iconservice import Address, AddressPrefix
            return type('L', (Address,), {'to_bytes': lambda s: b'zz', 'prefix': property(lambda s: AddressPrefix(0))})(AddressPrefix(1), b'y' * 20)
        for n, a in bad_addr.items():
            g = (lambda a=a: a() if callable(a) else a)
            add('to:call:' + n, lambda s, g=g: s.call(g(), 'run', {'i': 1}))
            add('to:transfer:' + n, lambda s, g=g: s.icx.transfer(g(), 0))
            add('to:send:' + n, lambda s, g=g: bool(s.icx.send(g(), 0)))
            add('to:bal:' + n, lambda s, g=g: s.icx.get_balance(g()))

        def wpre(f):
            def p(s):
                v, w, d = setup_vars(s)
                for j in range(3):
                    v.set(j + 1)
                try:
                    f(s)
                except BaseException as e:
                    pass
                return v.get()
            return p
        for n, f in dict(bal=lambda s: s.icx.get_balance('cx'), call=lambda s: s.call('cx', 'run', {}), kw=lambda s: s.call(to_py(A2), 'run', {'i': object()}),
                         key=lambda s: s.call(to_py(A2), 'run', {1: 1}), ev=lambda s: s.Ev('x', 1), fee=lambda s: s.set_fee_sharing_proportion('x'),
                         arr=lambda s: setup_vars(s)[2].__setitem__(object(), 'x'), val=lambda s: setup_vars(s)[0].set(object()),
                         amt=lambda s: s.icx.transfer(to_py(A2), object())).items():
            add('wpre:' + n, wpre(f), 0, costs=V1)
        for n, v in dict(str='1', none=None, flt=1.5, neg=-1, true=True, big=2 ** 300, bytes=b'\x01').items():
            add('amt:' + n, lambda s, v=v: s.icx.transfer(to_py(EOA1), v))
        for n, v in dict(half=50.5, true=True, none=None, str='9', neg=-1, big=101).items():
            add('fee:' + n, lambda s, v=v: s.set_fee_sharing_proportion(v))
        add('fee:sub', lambda s: s.set_fee_sharing_proportion(type('FI', (int,), {'__or__': lambda a, b: 'zz', '__gt__': lambda a, b: a == 7, '__lt__': lambda a, b: False})(60)))
        add('log', lambda s: [__import__('iconservice').Logger.info(x) for x in ('a', '\ud800', b'x', None, object, 'z' * 70000)] and 1, 0)

        # -- contracts which change whatever the engine hands to them
        def alias_json(s):
            from iconservice import json_loads, json_dumps
            v, w, x = json_loads('{"a": [1], "b": {"c": null}}'), json_loads('[{"k": [2]}]'), json_loads('{}')
            r = [json_dumps(v), json_dumps(w), json_dumps(x)]
            v['a'].append(2)
            v['b']['c'] = 9
            v['z'] = v['a']
            w[0]['k'].clear()
            w.append(5)
            x['n'] = 1
            return r + [v, w, x]

        def alias_call(s):
            x = {'a': [1, {'b': 2}]}
            out = []
            for _ in range(2):
                r = s.call(to_py(A2), 'run', {'i': same})
                out.append(__import__('copy').deepcopy(r))
                r['l'].append(7)
                r['m']['x'] = 8
                del r['t']
            return out

        def alias_dump(s):
            from iconservice import json_dumps, sha3_256
            d = {'a': 1, 'l': [1]}
            r = [json_dumps(d)]
            for x in (True, 1, '1', [True], {'a': True}, {'a': 1}):
                d['a'] = x
                d['l'].append(x)
                r.append(json_dumps(d))
            b = bytearray(b'ab')
            return r + [sha3_256(bytes(b))]

        def alias_info(s):
            r = [repr(s.msg), repr(s.tx), repr(s.block)]
            r = [s.msg.sender, s.msg.value, s.tx.origin, s.tx.index, s.tx.nonce, s.block.height, s.block.timestamp, s.address, s.owner]
            for o, names in ((s.msg, ('sender', 'value', '_Message__sender', '_Message__value', '_sender', 'x')), (s.block, ('height', 'timestamp', '_Block__height', '_height', 'x')),
                             (s.tx, ('origin', 'index', 'nonce', '_Transaction__origin', '_Transaction__nonce', 'x')), (s, ('block_height', 'msg', 'tx', 'x'))):
                for n in names:
                    try:
                        setattr(o, n, 3)
                    except BaseException:
                        pass
            return r

        def kinds(s):
            r = []
            for x in ([True, 1, False, 0], [1, True, 0, False], {'a': True, 'b': 1}, {'b': True, 'a': 1}, ['1', b'1', 1], [None, 0, '', b'', False, [], {}]):
                r.append(s.call(to_py(A2), 'run', {'i': same2}) if x is None else x)
                v, w, d = setup_vars(s)
                from iconservice import VarDB
                for t, y in ((bool, True), (int, 1), (int, True), (bool, False), (int, 0), (str, '1'), (bytes, b'1')):
                    z = VarDB('k', s.db, t)
                    z.set(y)
                    r.append(z.get())
            return r
        same = self.n + 1
        add('alias:callee', lambda s: {'l': [1, 2], 'm': {'x': None}, 't': 'x'}, 0)
        same2 = same
        for n, f in dict(json=alias_json, call=alias_call, dump=alias_dump, info=alias_info, kinds=kinds).items():
            add('alias:' + n, f, 0)

        # -- malformed requests
        c = host.contracts[A1]
        for n, kw in dict(nometh=dict(method='nope', params=[1]), empty=dict(method='', params=[]), dunder=dict(method='__init__', params=[]),
                          many=dict(method='run', params=[1, 2, 3]), few=dict(method='run', params=[]), dictbad=dict(method='run', params={'z': '1'}),
                          dictjunk=dict(method='run', params={'i': 'zz'}), nil=dict(method='run', params=None), internal=dict(method='_IconScoreBase__call', params=['run']),
                          prop=dict(method='db', params=[]), event=dict(method='Ev', params=[1, 'a']), prog404=dict(method='run', params=[987654])).items():
            self.req('req:' + n, (lambda kw=kw: Invoke(c, **kw)), 'fail')

        # -- contracts that fail to load or to be constructed
        H = 'from iconservice import IconScoreBase, external\n'
        CL = 'class Score(IconScoreBase):\n    def __init__(self, db): %s\n    def on_install(self): pass\n    def on_update(self): pass\n    @external\n    def run(self, i: int): return i\n'
        OK = H + CL % 'super().__init__(db)'
        mk = self.ctx.scores.make
        HOST = ('class M(str):\n    def _b(self, *a, **k): raise %s\n    strip = encode = format = split = join = replace = __str__ = __repr__ = __format__ = __len__ = __iter__ = '
                '__getitem__ = __add__ = __mod__ = __eq__ = lower = upper = splitlines = _b\n    __hash__ = str.__hash__\n')
        bad = dict(
            missing=os.path.join(self.ctx.scores.root, 'absent'), empty='', rel='./nowhere', isfile=__file__,
            nopkg=mk(OK, package=False), badjson=mk(OK, package='{'), listjson=mk(OK, package='[]'), nulljson=mk(OK, package='null'), nomain=mk(OK, package='{}'), noscore=mk(OK, main_score='Nope'),
            nomod=mk(OK, package='{"main_module": "zz", "main_score": "Score"}'), relmod=mk(OK, package='{"main_module": ".main", "main_score": "Score"}'),
            intmod=mk(OK, package='{"main_module": 5, "main_score": "Score"}'), badutf=mk(None, files={}, package='{"main_module": "main", "main_score": "Score"}'),
            syntax=mk('def ('), indent=mk(OK + '  x\n'), raises=mk(OK + 'raise ValueError("top")\n'), rv=mk(H + 'from iconservice import revert\nrevert("top", 3)\n' + CL % 'pass'),
            exits=mk(OK + 'raise SystemExit(0)\n'), kbd=mk(OK + 'raise KeyboardInterrupt\n'), recs=mk(OK + 'def f(): f()\nf()\n'), notcls=mk(OK + 'Score = 5\n'), fn=mk(OK + 'def Score(db): return 5\n'),
            nonescore=mk(OK + 'Score = None\n'), plain=mk('class Score:\n    def __init__(self, db): pass\n'), noext=mk(H + 'class Score(IconScoreBase):\n    pass\n'),
            ctor=mk(H + CL % 'raise ValueError("c")'), ctor_rv=mk(H + 'from iconservice import revert\n' + CL % 'revert("c", 4)'), ctor_kbd=mk(H + CL % 'raise KeyboardInterrupt'),
            ctor_nosuper=mk(H + CL % 'pass'), ctor_w=mk(H + 'from iconservice import VarDB\n' + CL % 'super().__init__(db); VarDB("q", db, int).set(4)'),
            ctor_call=mk(H + 'from iconservice import VarDB\n' + CL % 'super().__init__(db); self.call(self.address, "run", {"i": 1})'),
            ctor_ev=mk(H + 'from iconservice import eventlog\n' + CL % 'super().__init__(db); self.E()' + '    @eventlog\n    def E(self): pass\n'),
            badex=mk(H + 'class E(BaseException):\n    def __str__(self): raise E()\n    __repr__ = __str__\n' + CL % 'raise E()'),
            badcode=mk(H + 'from iconservice import IconScoreException\nclass E(IconScoreException):\n    code = 7001\n' + CL % 'raise E("x")'),
            hostmsg=mk(H + HOST % 'KeyboardInterrupt' + 'from iconservice import IconScoreException\nraise IconScoreException(M("x"))\n'),
            hostmsg2=mk(H + HOST % 'ValueError' + 'from iconservice import IconScoreException\nraise IconScoreException(M("x"))\n'),
            hostmsg3=mk(H + HOST % 'SystemExit' + 'from iconservice import IconScoreException\nclass E(IconScoreException):\n    @property\n    def message(self): return M("x")\nraise E(M("x"))\n'),
            hostmsg4=mk(H + HOST % 'KeyboardInterrupt' + 'from iconservice import IconScoreException\n' + CL % 'raise IconScoreException(M("x"))'),
            topcode=mk(H + 'from iconservice import IconScoreException\nclass E(IconScoreException):\n    code = "x"\nraise E("x")\n'),
            meta=mk(H + 'class M(type(IconScoreBase)):\n    def __call__(c, *a): raise SystemExit\n' + CL.replace('(IconScoreBase)', '(IconScoreBase, metaclass=M)') % 'pass'),
            badapi=mk(H + CL % 'super().__init__(db)' + '    @external\n    def bad(self, x: object): pass\n'),
            getattr=mk(H + CL % 'super().__init__(db)' + '    def __getattribute__(self, n): raise KeyboardInterrupt\n'),
            dflt=mk(H + CL % 'super().__init__(db)' + '    @external\n    def d(self, x: int = type("I", (int,), {"to_bytes": lambda *a, **k: "zz"})(4)): pass\n'),
            importself=mk('import sys\nfrom . import other\n' + OK, files={'other.py': 'from . import main\nmain.Score\n'}),
            good=mk(OK))
        for n, d in bad.items():
            cc = Contract(A3, d)
            exp = 0 if n == 'good' else None
            self.req('load:' + n, (lambda cc=cc: Invoke(cc, 'run', [1], costs=V1)), exp)
            self.req('api:' + n, (lambda d=d: GetApi(d)), exp)
        self.req('load:again', lambda cc=Contract(A2, bad['good']): Invoke(cc, 'run', [2]), 0)
        self.bad = bad

        # a contract deploying: the node asks for an API while a call is in progress
        def depl(s):
            v, w, d = setup_vars(s)
            v.set(3)
            try:
                r = s.call(to_py(W.addr(1, 0xdd)), 'deploy', {'i': 1})
            except BaseException as e:
                r = 'caught'
            return [r, v.get()]
        for n in ('good', 'raises', 'exits', 'kbd', 'missing', 'badex', 'topcode', 'badapi'):
            d = bad[n]

            def mkreq(i=self.prog(depl), d=d):
                q = Invoke(c, 'run', [i], costs=V1)
                q.api = d
                return q
            self.req('deploy:' + n, mkreq, 0)

    def n_of(self, name):
        return self.items[name][0]().params[0]

    def setup(self, node):
        self.host.setup(node)
        node.stores = {}

        def on_call(node, fr, info):
            if info['method'] == 'deploy':
                top = node.frames[0].req
                return ('api', top.api, (0, 11, 'deployed'))
        node.on_call = on_call

    INIT = None

    def run(self, node, name):
        """generator step: run the entry on `node` with a fixed initial state, return its observation"""
        node.stores = {}
        node.balances = {A1: 1000, EOA1: 50}
        o = yield self.items[name][0]()
        return self.observe(o, node)

    def observe(self, o, node):
        if hasattr(o, 'used'):
            return ('inv', o.status, o.used, repr(o.raw), repr(o.frame.trace), repr(o.frame.events), repr(o.frame.fee), repr(sorted(node.stores.items(), key=repr)),
                    repr([(c[0], c[1], c[2]) for c in o.frame.calls]), repr(sorted(node.balances.items(), key=repr)))
        return ('api', o.status, repr(o.data))


def raise_(e):
    raise e


REF = {}
MENU = None


def prepare(tier, root):
    """Outcome of each entry as the first request of a fresh engine (one forked process each); inherited by the units."""
    global MENU
    ctx = Ctx(tier)
    ctx.scores = Scores(root)
    MENU = Menu(ctx)
    names = list(MENU.items)
    jobs = 8
    ps = []
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            os.close(r)
            d = {}
            for n in names[j::jobs]:
                try:
                    d[n] = ('ok', alone(MENU, [n])[0])
                except BaseException as e:   # noqa
                    d[n] = (type(e).__name__, str(e))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(d, f)
            os._exit(0)
        os.close(w)
        ps.append((pid, r))
    for pid, r in ps:
        with os.fdopen(r, 'rb') as f:
            REF.update(pickle.loads(f.read()))
        os.waitpid(pid, 0)


def alone(menu, word):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        out = []
        try:
            engine(menu, word, out)
            msg = ('ok', out)
        except Problem as e:
            msg = ('problem', str(e))
        except BaseException as e:   # noqa
            import traceback
            msg = ('error', traceback.format_exc())
        with os.fdopen(w, 'wb') as f:
            pickle.dump(msg, f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    _, st = os.waitpid(pid, 0)
    if st or not b:
        raise Problem('first request %r: the engine process died (wait status %d)' % (word, st))
    k, v = pickle.loads(b)
    if k == 'problem':
        raise Problem('first request %r: %s' % (word, v))
    if k == 'error':
        raise RuntimeError(v)
    return v


def engine(menu, word, out, case=None):
    def driver(node):
        for n in word:
            if case:
                case(n, node)
            x = yield from menu.run(node, n)
            out.append(x)
    return run_engine(driver, setup=menu.setup, threaded=True)


def expect(name, exp, obs, ctx):
    st = obs[1]
    if not (0 <= st <= 999):
        ctx.fail('%s: answered with status %d' % (name, st))
    if exp is None:
        return
    if exp == 'fail':
        if st == 0:
            ctx.fail('%s: reported success' % name)
    elif st != exp:
        ctx.fail('%s: status %r, expected %r (%r)' % (name, st, exp, obs[3]))


def words(kind, arg, names):
    if kind == 'pairs':
        for a in arg:
            for b in names:
                yield a
                yield b
        return
    for w in arg:
        yield from w


SMALL = ['ok:map', 'w6:rev', 'w8:ret', 'sw:11280', 'oos:10000', 'rec', 'raise:kbd', 'res:items_rv', 'nest:w5:kbd', 'ro:swallow', 'load:raises', 'load:missing', 'api:good', 'selfrec2']
TINY = ['w6:rev', 'sw:11280', 'selfrec2', 'load:exits', 'nest:oos:10000']
MID = SMALL + ['ok:view', 'w1:ret', 'w5:res', 'raise:strkbd', 'code:s:crit', 'nestun:rec', 'nest:view', 'to:call:str', 'wpre:bal', 'fee:half', 'deploy:good', 'deploy:exits',
               'api:kbd', 'req:nometh', 'load:ctor_w', 'load:good']
PROBES = ['alias:json', 'alias:call', 'alias:dump', 'alias:info', 'alias:kinds', 'ok:one', 'ok:pay', 'raise:value', 'raise:iserr', 'raise:strboom', 'msg:boom', 'res:obj', 'res:deep600', 'w5:ret', 'w6:ret', 'w8:rev', 'w5:rec', 'oos:0', 'oos:13361',
          'sw:19000', 'sw:30000', 'ro:write', 'ro:view', 'nest:ok:map', 'nest:w8:ret', 'nestun:w5:exc', 'reent:self', 'selfrec', 'to:bal:none', 'wpre:call', 'amt:neg', 'fee:true',
          'log', 'req:few', 'load:rv', 'load:ctor', 'load:again', 'api:raises', 'api:ctor_ev', 'deploy:topcode', 'wpre:arr', 'neglimit', 'oos:v0']
GROUPS = 24


def units(tier):
    u = [('pairs', g) for g in range(GROUPS)]
    u += [('first', g) for g in range(4)]
    t = tier == 'thorough'
    sets = [(SMALL, 3), (TINY, 5)] if not t else [(MID, 3), (SMALL[:10], 4), (TINY, 6)]
    for s, n in sets:
        for a in s:
            if t:
                for b in s:
                    u.append(('words', (a, b), s, n))
            else:
                u.append(('words', (a,), s, n))
    w = 60 if not t else 140
    for op in DEPTH_OPS:
        u.append(('depth', op, w))
    u = [('huge', k, n) for k in ('res', 'msg', 'arg', 'store', 'array', 'dict', 'event', 'list', 'map') for n in (3 << 20, (10 << 20) + 1)] + u
    u += [('flow', op, th) for op in ('set', 'remove', 'mix', 'dict', 'big') for th in (0, 1)]
    return u


def flow(u, ctx):
    """Contracts which write for long without reading anything, against a node with bounded socket buffers."""
    _, op, th = u
    host = Host(ctx)

    def prog(n):
        def run(s):
            v, w, d = setup_vars(s)
            for j in range(n):
                k = op if op != 'mix' else ('set', 'remove', 'dict')[j % 3]
                if k == 'set':
                    v.set(j)
                elif k == 'remove':
                    v.remove()
                elif k == 'dict':
                    d[j % 7] = 'x'
                else:
                    w.set(b'x' * 3000)
            return n
        return run

    def driver(node):
        for n in (3, 700, 2500, 5) if ctx.tier == 'quick' else (3, 700, 2500, 40000, 5):
            ctx.case((op, n))
            ctx.state(op, n)
            node.stores = {}
            host.prog(1, prog(n))
            o = yield Invoke(host.contracts[A1], 'run', [1], costs=DEFAULT_COSTS_V1)
            ctx.transitions += n
            ctx.outcome(op, n, o.used)
            if o.status or o.result != n:
                ctx.fail('%d writes (%s) without a read: %r' % (n, op, o.brief()))
    run_engine(driver, setup=host.setup, threaded=bool(th))


def huge(u, ctx):
    """Values of many MiB crossing the connection in every way a contract can cause."""
    _, kind, n = u
    host = Host(ctx)

    def callee(s):
        from iconservice import revert
        if kind == 'msg':
            revert('m' * n)
        return {'res': b'x' * n, 'list': [b'y' * 100] * (n // 100), 'map': {'k%d' % i: 'v' * 100 for i in range(n // 200)}}.get(kind, 'small')

    def p(s):
        from iconservice import VarDB, ArrayDB, DictDB
        db = s.__dict__['_mc_db']
        if kind == 'store':
            v = VarDB('v', db, bytes)
            v.set(b'z' * n)
            return len(v.get())
        if kind == 'array':
            v = ArrayDB('a', db, str)
            v.put('s' * n)
            v.put('t')
            return len(v[0]) + len(v) % 2
        if kind == 'dict':
            v = DictDB('d', db, str)
            v['q' * n] = 's' * n
            return len(v['q' * n])
        if kind == 'event':
            s.Ev(1, 'e' * n)
            return n
        try:
            r = s.call(to_py(A2), 'run', {'i': 1} if kind != 'arg' else {'i': 'a' * n})
        except BaseException as e:
            return len(str(e.message)) if e.__class__.__name__ == 'IconScoreException' else repr(e)[:80]
        return {'res': lambda: len(r), 'list': lambda: len(r) * 100, 'map': lambda: len(r) * 200, 'arg': lambda: len(r)}[kind]()
    want = {'list': n // 100 * 100, 'map': n // 200 * 200}.get(kind, n)

    def driver(node):
        host.prog(1, callee)
        host.prog(2, lambda s: 'next')
        p_i = 3
        host.prog(p_i, p)
        if kind == 'arg':
            def on_call(node, fr, info):
                return ('reply', 0, 5, info['params']['i'])
            node.on_call = on_call
        for rnd in range(2):
            ctx.case((kind, n, rnd))
            ctx.state(kind, n, rnd)
            ctx.transitions += 1
            o = yield Invoke(host.contracts[A1], 'run', [p_i])
            ctx.outcome(kind, n, o.status, o.used)
            if o.status or o.result != want:
                ctx.fail('%d bytes (%s): %s' % (n, kind, o.brief()[:200] if isinstance(o.brief(), str) else repr(o.brief())[:200]))
            o = yield Invoke(host.contracts[A1], 'run', [2])
            if o.status or o.result != 'next':
                ctx.fail('the request after %d bytes (%s): status %d' % (n, kind, o.status))
    run_engine(driver, setup=host.setup)


def unit(u, ctx):
    if u[0] == 'huge':
        return huge(u, ctx)
    if u[0] == 'depth':
        return depth(u, ctx)
    if u[0] == 'flow':
        return flow(u, ctx)
    menu = MENU
    menu.ctx = ctx
    names = list(menu.items)
    if u[0] == 'first':
        for n in names[u[1]::4]:
            ctx.case(('first', n))
            k, v = REF[n]
            if k == 'Problem':
                ctx.fail(v)
                continue
            if k != 'ok':
                raise RuntimeError('%s: %s' % (k, v))
            ctx.outcome(n, v)
            ctx.state('first', n)
            ctx.transitions += 1
            expect(n, menu.items[n][1], v, ctx)
        return
    ref = {n: v for n, (k, v) in REF.items() if k == 'ok'}
    names = [n for n in names if n in ref]
    if u[0] == 'pairs':
        probes = names if ctx.tier == 'thorough' else [n for n in names if n in PROBES or n in MID]
        seq = list(words('pairs', names[u[1]::GROUPS], probes))
    else:
        _, pre, s, n = u
        if any(x not in ref for x in s):
            return
        seq = [x for w in itertools.product(s, repeat=n - len(pre)) for x in pre + w]
    out = []
    hist = []

    def case(n, node):
        if out:
            check(hist[-1], out[-1])
        hist.append(n)
        ctx.case((u[0], len(hist), hist[-6:]))
        ctx.state(tuple(hist[-(2 if u[0] == 'pairs' else u[3]):]))

    def check(n, x):
        ctx.transitions += 1
        if x != ref[n]:
            ctx.fail('request %r after %r: outcome differs from a fresh engine\n  fresh: %s\n  here:  %s' % (n, hist[-7:-1], brief(ref[n]), brief(x)))
    engine(menu, seq, out, case)
    check(hist[-1], out[-1])
    ctx.sample(dict(word=hist[:4], outcome=brief(out[0])[:300]))


def brief(x):
    return ' | '.join(str(y)[:400] for y in x)


# -- a contract that exhausts the stack and uses the node at the deepest levels -------------------------------------
DEPTH_OPS = ['get', 'set', 'remove', 'event', 'balance', 'call', 'transfer', 'in', 'put', 'hash', 'ok']


def depth_prog(op, n, pre):
    def prog(s):
        from iconservice import ArrayDB, sha3_256
        v, w, d = setup_vars(s)
        arr = ArrayDB('a', s.db, int)
        f = dict(get=lambda: v.get(), set=lambda: v.set(5), remove=lambda: v.remove(), event=lambda: s.Ev(1, 'a'), balance=lambda: s.icx.get_balance(s.address),
                 call=lambda: s.call(s.address, 'run', {'i': 0}), transfer=lambda: s.icx.transfer(s.address, 0), put=lambda: arr.put(4), hash=lambda: sha3_256(b'x'), ok=lambda: 1)
        f['in'] = lambda: 4 in arr
        f = f[op]
        for j in range(pre):
            w.set(b'%d' % j) if j % 2 == 0 else w.remove()

        def rec(k):
            if k == 0:
                return f()
            return rec(k - 1)
        try:
            r = ['ok', rec(n)]
        except BaseException as e:
            r = ['failed', getattr(e, 'code', 1)]
        # everything still works and is in step
        v.set(9)
        return r + [v.get(), w.get(), sorted([d['none'] or 'none'])]
    return prog


def depth(u, ctx):
    """Depth at which the engine's own frames no longer fit: outcome is success or a failure of that operation only, monotone in the depth."""
    _, op, win = u
    host = Host(ctx)
    top = 1000

    def driver(node):
        host.prog(0, lambda s: 'callee')
        for pre in (0, 1, 2, 3):
            failed = False
            for n in range(top - win, top):
                ctx.case((op, pre, n))
                ctx.state(op, pre, n)
                node.stores, node.balances = {}, {A1: 5}
                i = 5
                host.prog(i, depth_prog(op, n, pre))
                o = yield Invoke(host.contracts[A1], 'run', [i], costs=None if op in ('call', 'transfer') else DEFAULT_COSTS_V1)
                ctx.transitions += o.frame.trace.__len__()
                if o.status != 0 or not isinstance(o.result, list) or o.result[2:] != [9, (None, b'0', None, b'2')[pre], ['none']]:
                    ctx.fail('after %s at recursion depth %d with %d pending writes: %r' % (op, n, pre, o.brief()))
                    continue
                ctx.outcome(op, o.result[0], o.result[1])
                ok = o.result[0] == 'ok'
                if ok and failed:
                    ctx.fail('%s fails at a smaller depth but succeeds at depth %d' % (op, n))
                failed = failed or not ok
                # an immediate plain request is unaffected
                host.prog(6, lambda s: 'plain')
                o = yield Invoke(host.contracts[A1], 'run', [6], costs=DEFAULT_COSTS_V1)
                if o.status or o.result != 'plain' or o.used:
                    ctx.fail('request after %s at depth %d: %r' % (op, n, o.brief()))
            if not failed and op != 'ok':
                ctx.note('depth window never exhausted the stack')
    run_engine(driver, setup=host.setup, threaded=True)
