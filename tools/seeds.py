P = 'pyee/pyexec/'
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=[(P + f, a, b) for f, a, b in edits], needs=needs, breaks=breaks, demo=demo))


seed('C01-cached-length', 'C01', [
    ('iconscore/icon_container_db.py', "        self._db = db.get_sub_db(ContainerUtil.encode_key(var_key), tag=ARRAY_DB_ID)\n        self.__value_type = value_type\n",
     "        self._db = db.get_sub_db(ContainerUtil.encode_key(var_key), tag=ARRAY_DB_ID)\n        self.__value_type = value_type\n        self.__size = None\n"),
    ('iconscore/icon_container_db.py', "        return ContainerUtil.decode_object(self._db.get(None), int)\n", "        if self.__size is None:\n            self.__size = ContainerUtil.decode_object(self._db.get(None), int)\n        return self.__size\n"),
    ('iconscore/icon_container_db.py', "        byte_value = ContainerUtil.encode_value(size)\n", "        self.__size = size\n        byte_value = ContainerUtil.encode_value(size)\n"),
], 'two ArrayDB objects of the same name in one call (or a reentrant call), one used after the other changed the length',
    'the length of an ArrayDB is remembered by the object, so that a second object of the same array overwrites elements', '''
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import ArrayDB
        db = s.__dict__['_mc_db']
        a, b = ArrayDB('a', db, int), ArrayDB('a', db, int)
        b.put(1)
        a.put(10)
        a.put(11)
        b.put(2)
        return list(ArrayDB('a', db, int))
    o = yield h.inv(p)
    expect(o.result, [1, 10, 11, 2], 'array')
play(driver, h)
''')

seed('C01-falsy-delete', 'C01', [
    ('iconscore/icon_container_db.py', "            raise InvalidContainerAccessException('DictDB depth mismatch')\n        self._db.delete(ContainerUtil.encode_key(key))",
     "            raise InvalidContainerAccessException('DictDB depth mismatch')\n        # nothing to delete otherwise\n        if self[key]:\n            self._db.delete(ContainerUtil.encode_key(key))"),
], 'removal of an entry whose value is 0 or False', 'entries of a DictDB with a zero value can not be removed', '''
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import DictDB
        d = DictDB('d', s.__dict__['_mc_db'], int)
        d['k'] = 0
        d.remove('k')
        return 'k' in d
    o = yield h.inv(p)
    expect(o.result, False, 'removed key is in the map')
play(driver, h)
''')

seed('C02-rlp-55', 'C02', [
    ('database/db.py', "    elif blen <= 55:\n", "    elif blen < 55:\n"),
], 'a container name or key of exactly 55 bytes', 'keys of 55 bytes are not encoded as the node (and other engines) encode them', '''
import hashlib
h = Host(ctx)
def driver(node):
    for n in (54, 55, 56, 60):
        def p(s):
            from iconservice import VarDB
            VarDB('n' * n, s.__dict__['_mc_db'], int).set(5)
        o = yield h.inv(p)
        k = [t[1] for t in o.frame.trace if t[0] == 'set'][0]
        pre = bytes([0x80 + n]) if n <= 55 else bytes([0xb8, n])
        expect(k, hashlib.sha3_256(b'\\2' + pre + b'n' * n).digest(), 'key of a name of %d bytes' % n)
play(driver, h)
''')

seed('C02-depth-prefix', 'C02', [
    ('database/db.py', "        if self._prefix is not None:\n            prefix = concat_encoded(self._prefix, prefix)\n", "        if self._prefix is not None and len(self._prefix) < 64:\n            prefix = concat_encoded(self._prefix, prefix)\n"),
], 'a nested DictDB of depth 3 or more whose outer keys are together 64 bytes or longer', 'different paths of a nested map share their storage', '''
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import DictDB
        d = DictDB('d', s.__dict__['_mc_db'], int, 3)
        d['a' * 64]['x']['k'] = 1
        d['b' * 64]['x']['k'] = 2
        return d['a' * 64]['x']['k']
    o = yield h.inv(p)
    expect(o.result, 1, 'nested map')
play(driver, h)
''')

seed('C03-big-list', 'C03', [
    ('ipc/client.py', "max_buffer_size=2**31)", "max_buffer_size=2**31,\n                                         max_array_len=65535,\n                                         max_map_len=65535)"),
], 'a result or argument with more than 65535 entries in a list or map', 'such values break the call which receives them', '''
h = Host(ctx)
def driver(node):
    h.prog(1, lambda s: [1] * 70000)
    def p(s):
        return len(s.call(to_py(A2), 'run', {'i': 1}))
    o = yield h.inv(p)
    expect((o.status, o.result), (0, 70000), 'long list')
play(driver, h)
''')

seed('C03-none-entries', 'C03', [
    ('ipc/proxy.py', "                    k = k.decode('utf-8')\n                obj[k] = self.decode_any(v)\n", "                    k = k.decode('utf-8')\n                if v[1] is not None:\n                    obj[k] = self.decode_any(v)\n"),
], 'a map with a null entry as argument or result of a nested call', 'null entries of maps are lost on the way to a contract', '''
h = Host(ctx)
def driver(node):
    def inner(s):
        return {'a': None, 'b': 1}
    def p(s):
        h.prog(1, inner)
        r = s.call(to_py(A2), 'run', {'i': 1})
        return sorted(r)
    o = yield h.inv(p)
    expect(o.result, ['a', 'b'], 'keys of the result')
play(driver, h)
''')

seed('C04-contains-two', 'C04', [
    ('database/db.py', "        if cnt > 1:\n", "        if cnt > 2:\n"),
], 'an ArrayDB search which visits exactly two elements, with base costs', 'the second element of a search is not charged', '''
h = Host(ctx)
def driver(node):
    costs = {'schema': 1, 'get': 0, 'getBase': 1000}
    def fill(s):
        from iconservice import ArrayDB
        a = ArrayDB('a', s.__dict__['_mc_db'], int)
        for i in range(3):
            a.put(i)
    yield h.inv(fill)
    used = []
    for x in range(3):
        def p(s):
            from iconservice import ArrayDB
            return x in ArrayDB('a', s.__dict__['_mc_db'], int)
        o = yield h.inv(p, costs=costs)
        used.append(o.used)
    expect([b - a for a, b in zip(used, used[1:])], [1000, 1000], 'steps per visited element')
play(driver, h)
''')

seed('C04-overdraft', 'C04', [
    ('iconscore/icon_score_step.py', "                step_used = self._step_used\n                self._step_used = self._step_limit\n                raise", "                step_used = self._step_used\n                if step > 0:\n                    self._step_used = min(step_used + step // 2, self._step_limit)\n                raise"),
], 'an operation costing more than twice what is left, whose failure the contract survives or reports', 'running out of steps does not use up the limit', '''
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import sha3_256
        sha3_256(b'')
        sha3_256(b'x' * 32 * 10)
    o = yield h.inv(p, limit=1900, costs={'apiCall': 1000})
    expect((o.status, o.used), (10, 1900), 'out of step')
    o = yield h.inv(p, limit=2999, costs={'apiCall': 1000})
    expect((o.status, o.used), (10, 2999), 'out of step')
    o = yield h.inv(p, limit=2100, costs={'apiCall': 1000})
    expect((o.status, o.used), (10, 2100), 'out of step')
play(driver, h)
''')

seed('C05-getapi-in-call', 'C05', [
    ('ipc/proxy.py', "                self.__handle_invoke(data)\n            elif msg == Message.GETAPI:\n                self.__handle_get_api(data)\n            elif msg == Message.RESULT:\n", "                self.__handle_invoke(data)\n            elif msg == Message.RESULT:\n"),
], 'an API request while a contract waits for a nested call (deployment of a contract by a contract)', 'the request is never answered', '''
h = Host(ctx)
def driver(node):
    node.on_call = lambda n, fr, info: ('api', h.code, (0, 5, 'deployed'))
    def p(s):
        return s.call(to_py(A3), 'deploy', {})
    o = yield h.inv(p)
    expect((o.status, o.result), (0, 'deployed'), 'deployment')
play(driver, h)
''')

seed('C05-flow', 'C05', [
    ('ipc/proxy.py', "MAX_SET_VALUE_HANDLERS = 5\n", "MAX_SET_VALUE_HANDLERS = 1000\n"),
], 'a contract writing hundreds of values without reading, on a socket with a bounded buffer', 'engine and node block each other: acknowledgements fill the socket while the engine goes on writing', '''
import socket
from mc import node as N
def slow_thread(node, sock):
    """answers message by message, as the node does"""
    sock.settimeout(15)
    sizes = []
    push = N.Node.push
    def counted(msg, data):
        n = len(node.out)
        push(node, msg, data)
        sizes.append(len(node.out) - n)
    node.push = counted
    un = node.unpacker
    try:
        while node.dead is None:
            if node.version is not None and not node.frames and not node.out and not node.closing:
                try:
                    node.next_request()
                except Problem as e:
                    node.problem(str(e))
                    break
            while node.out:
                k = sizes.pop(0)
                sock.sendall(bytes(node.out[:k]))
                del node.out[:k]
                node.took(k)
            if node.closing:
                break
            b = sock.recv(16)
            if not b:
                break
            node.feed(b)
    except socket.timeout:
        bad('engine and node wait for each other')
N.node_thread = slow_thread
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import DictDB
        d = DictDB('d', s.__dict__['_mc_db'], bytes)
        for i in range(20000):
            d[i] = b'x' * 300
        return 7
    o = yield h.inv(p)
    expect((o.status, o.result), (0, 7), 'writes')
try:
    run_engine(driver, setup=h.setup, threaded=True)
except Problem as e:
    bad(str(e))
''')

seed('C06-short-write', 'C06', [
    ('ipc/client.py', "        self.conn.sendall(b)\n", "        self.conn.send(b)\n"),
], 'a socket which takes a message in several parts (a large message or a busy node)', 'the rest of the message is lost', '''
from mc import node as N
def short(self, b, *a):
    k = min(len(b), 700)
    self.node.feed(bytes(b[:k]))
    return k
N.FakeSocket.send = short
h = Host(ctx)
def driver(node):
    o = yield h.inv(lambda s: 'x' * 5000)
    expect((o.status, o.result), (0, 'x' * 5000), 'large result')
play(driver, h)
''')

seed('C06-ack-order', 'C06', [
    ('ipc/proxy.py', "            handler, size = self.__set_handlers.pop(0)\n            msg, data = self.__client.receive()\n            if msg", "            handler, size = self.__set_handlers.pop()\n            msg, data = self.__client.receive()\n            if msg"),
], 'several unacknowledged writes of which some replace and some remove values', 'acknowledgements are applied to other writes than theirs', '''
h = Host(ctx)
def driver(node):
    costs = {'schema': 1, 'set': 10, 'setBase': 100, 'delete': -3, 'deleteBase': 50}
    def p(s):
        from iconservice import VarDB
        db = s.__dict__['_mc_db']
        for n in ('a', 'b'):
            VarDB(n, db, bytes).set(b'x' * 20)
    yield h.inv(p)
    def q(s):
        from iconservice import VarDB
        db = s.__dict__['_mc_db']
        VarDB('a', db, bytes).remove()
        VarDB('b', db, bytes).set(b'y' * 7)
        VarDB('c', db, bytes).set(b'y' * 9)
    o = yield h.inv(q, costs=costs)
    # remove a: 50-60, replace b: 75+70-60, set c: 100+90
    expect(o.used, 50 - 60 + 75 + 70 - 60 + 190, 'steps')
play(driver, h)
''')

seed('C07-sticky-readonly', 'C07', [
    ('ipc/proxy.py', "                self.encode_any(result)\n            ])\n        except BaseException as e:\n", "                self.encode_any(result)\n            ])\n            self.__readonly = self.__readonly_stack.pop(-1)\n        except BaseException as e:\n"),
    ('ipc/proxy.py', "        finally:\n            self.__readonly = self.__readonly_stack.pop(-1)\n", "            self.__readonly_stack.pop(-1)\n"),
], 'a nested read-only call whose result can not be encoded, followed by a write of the caller', 'the caller stays in read-only mode', '''
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import VarDB
        h.prog(1, lambda s: object())
        try:
            s.call(to_py(A2), 'view', {'i': 1})
        except BaseException:
            pass
        VarDB('v', s.__dict__['_mc_db'], int).set(5)
        return 'written'
    o = yield h.inv(p)
    expect((o.status, o.result), (0, 'written'), 'write after a failed query')
play(driver, h)
''')

seed('C07-block-cache', 'C07', [
    ('pyexec.py', "        context.block = Block(info.get(Info.BLOCK_HEIGHT),\n                              info.get(Info.BLOCK_TIMESTAMP))\n",
     "        height = info.get(Info.BLOCK_HEIGHT)\n        if self.__block is None or self.__block.height != height:\n            self.__block = Block(height, info.get(Info.BLOCK_TIMESTAMP))\n        context.block = self.__block\n"),
    ('pyexec.py', "        self.__verify_package = verify_package\n", "        self.__verify_package = verify_package\n        self.__block = None\n"),
], 'two requests for the same height with different timestamps (competing proposals, or a query in between)', 'a contract sees the timestamp of another block', '''
h = Host(ctx)
def driver(node):
    for t in (1000, 2000, 1000):
        o = yield h.inv(lambda s: [s.block_height, s.now()], info={'height': 7, 'timestamp': t})
        expect(o.result, [7, t], 'block')
play(driver, h)
''')

seed('C08-flags', 'C08', [
    ('ipc/proxy.py', "        is_query = (option & InvokeFlag.READ_ONLY) != 0\n", "        is_query = option == InvokeFlag.READ_ONLY\n"),
], 'a read-only request with tracing enabled', 'a traced query may write', '''
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import VarDB
        VarDB('v', s.__dict__['_mc_db'], int).set(5)
    o = yield h.inv(p, readonly=True, flag=3)
    expect((o.status != 0, node.ro_messages), (True, []), 'write of a traced query')
play(driver, h)
''')

seed('C08-nested-query', 'C08', [
    ('ipc/proxy.py', "            self.__readonly = is_query\n", "            self.__readonly = is_query or self.__readonly\n"),
    ('ipc/proxy.py', "        if self.__readonly:\n            return\n        self.__client.send(Message.EVENT, [", "        self.__client.send(Message.EVENT, ["),
    ('iconscore/icon_score_eventlog.py', "        if context.readonly:\n", "        if context.readonly and context.msg.sender is not None:\n"),
], 'a read-only request without a sender (a query of the node) to a method emitting an event', 'the event is sent to the node', '''
h = Host(ctx)
def driver(node):
    def p(s):
        s.Ev0()
    o = yield h.inv(p, readonly=True, frm=None)
    expect(node.ro_messages, [], 'event of a query')
    o = yield h.inv(p, method='view', readonly=True, frm=None)
    expect(node.ro_messages, [], 'event of a query')
play(driver, h)
''')

seed('C09-payable-only', 'C09', [
    ('iconscore/typing/element.py', "        return bool(self.flag & ScoreFlag.EXTERNAL)\n", "        return bool(self.flag & (ScoreFlag.EXTERNAL | ScoreFlag.PAYABLE))\n"),
], 'a method which is only declared payable', 'a method which is not exposed can be called', '''
src = """
from iconservice import *
class Score(IconScoreBase):
    def __init__(self, db): super().__init__(db)
    def on_install(self): pass
    def on_update(self): pass
    @external
    def run(self): return 1
    @payable
    def hidden(self): return 2
"""
c = Contract(A1, ctx.scores.make(src))
def driver(node):
    o = yield Invoke(c, 'hidden', [])
    expect(o.status, 3, 'call of a method which is not external')
play(driver)
''')

seed('C09-underscore', 'C09', [
    ('iconscore/typing/element.py', '        if name.startswith("__"):\n', '        if name.startswith("_"):\n'),
], 'an external method whose name starts with an underscore', 'the method can not be called', '''
src = """
from iconservice import *
class Score(IconScoreBase):
    def __init__(self, db): super().__init__(db)
    def on_install(self): pass
    def on_update(self): pass
    @external
    def run(self): return 1
    @payable
    @external
    def _run(self): return 2
"""
c = Contract(A1, ctx.scores.make(src))
def driver(node):
    o = yield Invoke(c, '_run', [])
    expect((o.status, o.result), (0, 2), 'call of an external method')
play(driver)
''')

seed('C10-falsy-default', 'C10', [
    ('iconscore/typing/definition.py', '        inp["default"] = default\n', '        if default or default is None:\n            inp["default"] = default\n'),
], 'a parameter with a default of 0, False or an empty value', 'the parameter is published as required', '''
src = """
from iconservice import *
class Score(IconScoreBase):
    def __init__(self, db): super().__init__(db)
    def on_install(self): pass
    def on_update(self): pass
    @external
    def run(self, a: int, b: int = 0): return 1
"""
code = ctx.scores.make(src)
def driver(node):
    o = yield GetApi(code)
    run = [e for e in o.data if e[1] == b'run'][0]
    expect((run[3], run[4][1][2]), (1, b'\\0'), 'default')
play(driver)
''')

seed('C10-nested-struct', 'C10', [
    ('iconscore/typing/definition.py', '        if is_struct(last_type_hint):\n            field["fields"] = _get_fields(last_type_hint)\n\n        fields.append(field)', '        if is_struct(last_type_hint) and len(type_hints) == 1:\n            field["fields"] = _get_fields(last_type_hint)\n\n        fields.append(field)'),
], 'a struct parameter with a field that is a list of structs', 'fields of the inner struct are not published', '''
src = """
from iconservice import *
class In(TypedDict):
    x: int
class Out(TypedDict):
    a: str
    l: List[In]
class Score(IconScoreBase):
    def __init__(self, db): super().__init__(db)
    def on_install(self): pass
    def on_update(self): pass
    @external
    def run(self, o: Out): return 1
"""
code = ctx.scores.make('from typing import List\\nfrom typing_extensions import TypedDict\\n' + src)
def driver(node):
    o = yield GetApi(code)
    run = [e for e in o.data if e[1] == b'run'][0] if o.data else None
    if not run or len(run[4][0]) != 4 or len(run[4][0][3][1]) != 4:
        bad('fields %r' % (run,))
play(driver)
''')

seed('C11-empty-text', 'C11', [
    ('base/type_converter.py', "            if kw_param is None:\n                continue\n", "            if not kw_param:\n                continue\n"),
], 'an empty text given for a parameter of type int, bytes or Address by keyword', 'the method gets a text instead of a value of the declared type', '''
src = """
from iconservice import *
class Score(IconScoreBase):
    def __init__(self, db): super().__init__(db)
    def on_install(self): pass
    def on_update(self): pass
    @external
    def run(self, a: bytes): return type(a).__name__
"""
c = Contract(A1, ctx.scores.make(src))
def driver(node):
    o = yield Invoke(c, 'run', {'a': ''})
    expect((o.status, o.result), (0, 'bytes'), 'type of the argument')
play(driver)
''')

seed('C11-negative-hex', 'C11', [
    ('base/type_converter.py', "            if value.startswith('0x') or value.startswith('-0x'):\n                return int(value, 16)\n", "            if value.startswith('0x'):\n                return int(value, 16)\n            elif value.startswith('-0x'):\n                return ~int(value[1:], 16) + 1 if len(value) < 18 else -int(value[3:19], 16)\n"),
], 'a negative hexadecimal number beyond 64 bits given by keyword', 'the number is cut', '''
src = """
from iconservice import *
class Score(IconScoreBase):
    def __init__(self, db): super().__init__(db)
    def on_install(self): pass
    def on_update(self): pass
    @external
    def run(self, a: int): return a
"""
c = Contract(A1, ctx.scores.make(src))
def driver(node):
    for n in (-1, -2 ** 63, -2 ** 64, -2 ** 100):
        o = yield Invoke(c, 'run', {'a': hex(n)})
        expect((o.status, o.result), (0, n), 'number')
play(driver)
''')

seed('C12-prefix-alias', 'C12', [
    ('base/address.py', "            prefix = AddressPrefix(prefix_int)\n", "            prefix = AddressPrefix(prefix_int & 1)\n"),
], 'address bytes with an unknown prefix byte', 'several byte strings stand for the same address', '''
import mc.node
mc.node.fresh()
from pyexec.base.address import Address
try:
    a = Address.from_bytes(b'\\2' + b'\\0' * 20)
except BaseException:
    a = None
if a is not None and a.to_bytes() != b'\\2' + b'\\0' * 20:
    bad('02 00.. is %s' % a)
''')

seed('C12-hash-text', 'C12', [
    ('base/address.py', "            and self.__prefix == other.prefix \\\n            and self.__body == other.body\n", "            and self.__prefix == other.prefix \\\n            and int.from_bytes(self.__body, DATA_BYTE_ORDER) == int.from_bytes(other.body, DATA_BYTE_ORDER) \\\n            and type(self) is type(other)\n"),
], 'an address from another source with an equal prefix and body but of a derived class', 'equal addresses compare different', '''
import mc.node
mc.node.fresh()
from pyexec.base.address import Address, MalformedAddress
a = Address.from_string('hx' + '1' * 40)
b = MalformedAddress.from_string('hx' + '1' * 40)
expect((a == b, hash(a) == hash(b), a.to_bytes() == b.to_bytes()), (True, True, True), 'identity')
''')

seed('C13-falsy-default', 'C13', [
    ('iconscore/icon_score_base.py', "                if not parameter.default == Parameter.empty:\n", "                if parameter.default and parameter.default is not Parameter.empty:\n"),
], 'an event parameter with a default of 0, False, None or empty left out by the caller', 'the event fails', '''
src = """
from iconservice import *
class Score(IconScoreBase):
    def __init__(self, db): super().__init__(db)
    def on_install(self): pass
    def on_update(self): pass
    @eventlog(indexed=1)
    def Ev(self, a: int, b: int = 0): pass
    @external
    def run(self): self.Ev(1)
"""
c = Contract(A1, ctx.scores.make(src))
def driver(node):
    o = yield Invoke(c, 'run', [])
    expect((o.status, o.frame.events), (0, [(A1, [b'Ev(int,int)', b'\\1'], [b'\\0'])]), 'event')
play(driver)
''')

seed('C13-indexed-none', 'C13', [
    ('iconscore/icon_score_eventlog.py', "            if i < indexed_args_count:\n                indexed.append(argument)\n", "            if i < indexed_args_count and argument is not None:\n                indexed.append(argument)\n"),
], 'an event whose indexed argument is None', 'the argument moves to the data fields', '''
h = Host(ctx)
def driver(node):
    o = yield h.inv(lambda s: s.Ev(None, 'x'))
    expect(o.frame.events, [(A1, [b'Ev(int,str)', None], [b'x'])], 'event')
play(driver, h)
''')

seed('C14-last-code', 'C14', [
    ('base/exception.py', "        elif code > ExceptionCode.END:\n            code = ExceptionCode.END\n", "        elif code >= ExceptionCode.END:\n            code = ExceptionCode.END - 1\n"),
], 'a revert with the largest code or above', 'the failure code changes', '''
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import revert
        revert('m', 967)
    def q(s):
        from iconservice import revert
        h.prog(1, p)
        s.call(to_py(A2), 'run', {'i': 1})
    for f in (p, q):
        o = yield h.inv(f)
        expect((o.status, o.result), (999, 'm'), 'status')
play(driver, h)
''')

seed('C14-empty-message', 'C14', [
    ('base/exception.py', "        if message is None:\n            message = str(code)\n", "        if not message:\n            message = str(code)\n"),
], 'a failure with an empty message', 'the message is replaced', '''
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import revert
        revert('', 3)
    o = yield h.inv(p)
    expect((o.status, o.result), (35, ''), 'failure')
play(driver, h)
''')

seed('C15-private-dirs', 'C15', [
    ('iconscore/score_package_validator.py', "        for dir_path, _, filenames in os.walk(pkg_root_path):\n", "        for dir_path, dirs, filenames in os.walk(pkg_root_path):\n            # directories of tools\n            dirs[:] = [d for d in dirs if not d.startswith('_')]\n"),
], 'a package with a forbidden import in a directory whose name starts with an underscore', 'the module is not validated but can be imported', '''
src = """
from iconservice import *
from ._lib import util
class Score(IconScoreBase):
    def __init__(self, db): super().__init__(db)
    def on_install(self): pass
    def on_update(self): pass
    @external
    def run(self): return util.f()
"""
code = ctx.scores.make(src, files={'_lib/util.py': 'import os\\ndef f(): return os.getcwd()\\n', '_lib/__init__.py': '', '__init__.py': ''})
def driver(node):
    o = yield GetApi(code)
    if o.status == 0:
        bad('package with import of os is accepted')
play(driver, args=('-p', '-u', 'uuid-1', '-s', '/nonexistent/ee.socket'))
''')

seed('C15-nested-code', 'C15', [
    ('iconscore/score_package_validator.py', "            cls._validate_import_from_code(co_const)\n            cls._validate_import_from_const(co_const.co_consts)\n", "            cls._validate_import_from_code(co_const)\n            if co_const.co_flags & 0x10 == 0:\n                cls._validate_import_from_const(co_const.co_consts)\n"),
], 'a forbidden import in a function inside of a function inside of a function (or in a lambda or generator in a closure)', 'the import is not found', '''
src = """
from iconservice import *
def a():
    x = 1
    def b():
        y = x
        def c():
            import os
            return os.getcwd(), y
        return c()
    return b()
class Score(IconScoreBase):
    def __init__(self, db): super().__init__(db)
    def on_install(self): pass
    def on_update(self): pass
    @external
    def run(self): return a()
"""
code = ctx.scores.make(src)
def driver(node):
    o = yield GetApi(code)
    if o.status == 0:
        bad('package with import of os is accepted')
play(driver, args=('-p', '-u', 'uuid-1', '-s', '/nonexistent/ee.socket'))
''')

seed('C16-json-chars', 'C16', [
    ('iconscore/icon_score_base2.py', "len(src.encode(CHARSET_ENCODING)) // 100", "len(src) // 100"),
], 'json_loads of a text with characters of several bytes', 'parsing is charged by characters instead of bytes', '''
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import json_loads
        return json_loads('"' + '\\u00e9' * 200 + '"')
    o = yield h.inv(p, costs={'apiCall': 1000}, info={'revision': 256})
    expect(o.used, 4000 + 4000 * 402 // 100, 'steps')
play(driver, h)
''')

seed('C16-signature-cache', 'C16', [
    ('iconscore/icon_score_base2.py', "            and len(signature) == 65:\n        return PublicKey.from_signature_and_message(signature, msg_hash, hasher=None).format(compressed)\n",
     "            and len(signature) == 65:\n        key = (msg_hash, signature[:64])\n        if key not in _recovered:\n            _recovered.clear()\n            _recovered[key] = PublicKey.from_signature_and_message(signature, msg_hash, hasher=None)\n        return _recovered[key].format(compressed)\n"),
    ('iconscore/icon_score_base2.py', "def _recover_key(", "_recovered = {}\n\n\ndef _recover_key("),
], 'recovery of two keys from one signature with different recovery ids, one after the other', 'the second recovery gives the key of the first', '''
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import recover_key
        from coincurve import PrivateKey
        k = PrivateKey(b'\\1' * 32)
        sig = k.sign_recoverable(b'\\5' * 32, hasher=None)
        other = sig[:64] + bytes([sig[64] ^ 1])
        a = recover_key(b'\\5' * 32, sig)
        b = recover_key(b'\\5' * 32, other)
        return [a == k.public_key.format(), a == b]
    o = yield h.inv(p)
    expect(o.result, [True, False], 'recovered keys')
play(driver, h)
''')

seed('C17-json-memo', 'C17', [
    ('iconscore/icon_score_base2.py', "    return json.loads(src)\n", "    ret = _parsed.get(src)\n    if ret is None:\n        if len(_parsed) > 100:\n            _parsed.clear()\n        ret = _parsed[src] = json.loads(src)\n    return ret\n"),
    ('iconscore/icon_score_base2.py', "def json_loads(", "_parsed = {}\n\n\ndef json_loads("),
], 'a contract which changes a value given by json_loads, and another parse of the same text afterwards', 'what a call sees depends on earlier calls', '''
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import json_loads
        v = json_loads('{"a": [1]}')
        v['a'].append(2)
        return v
    for _ in range(2):
        o = yield h.inv(p)
        expect(o.result, {'a': [1, 2]}, 'result')
play(driver, h)
''')

seed('C17-step-costs', 'C17', [
    ('iconscore/icon_score_step.py', "        converted_step_costs = {}\n        for key, value in step_costs.items():\n", "        converted_step_costs = IconScoreStepCounter._converted.setdefault(step_costs.get('schema', 0), {})\n        for key, value in step_costs.items():\n"),
    ('iconscore/icon_score_step.py', '    """ Counts steps in a transaction\n    """\n', '    """ Counts steps in a transaction\n    """\n    _converted = {}\n'),
], 'requests with different price tables, the later without an entry of the earlier', 'prices of an earlier request are used', '''
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import sha3_256
        sha3_256(b'')
    o = yield h.inv(p, costs={'apiCall': 1000})
    expect(o.used, 1000, 'steps')
    o = yield h.inv(p, costs={})
    expect(o.used, 0, 'steps')
play(driver, h)
''')

seed('C18-negative-cache', 'C18', [
    ('iconscore/icon_score_mapper.py', "            if score_class is None:\n                return None\n", "            if score_class is None:\n                self._missing.add(key)\n                return None\n"),
    ('iconscore/icon_score_mapper.py', "        if score_info is None:\n", "        if key in self._missing:\n            return None\n        elif score_info is None:\n"),
    ('iconscore/icon_score_mapper.py', "        self._objects = IconScoreMapperObject()\n", "        self._objects = IconScoreMapperObject()\n        self._missing = set()\n"),
], 'a package which is put in place after a failed request for it', 'the contract can not be called any more', '''
import os
h = Host(ctx)
path = os.path.join(TMP, 'late')
c = Contract(A1, path)
def driver(node):
    o = yield Invoke(c, 'run', [1])
    expect(o.status, 2, 'missing package')
    os.rename(h.code, path)
    h.prog(1, lambda s: 5)
    o = yield Invoke(c, 'run', [1])
    expect((o.status, o.result), (0, 5), 'package in place')
play(driver, h)
''')

seed('C18-instance-cache', 'C18', [
    ('iconscore/icon_score_mapper.py', "        score_db = self._create_icon_score_database(address)\n        return score_class(score_db)\n", "        # an instance is bound to its address\n        instance = self._instances.get((key, address))\n        if instance is None:\n            score_db = self._create_icon_score_database(address)\n            instance = self._instances[(key, address)] = score_class(score_db)\n        return instance\n"),
    ('iconscore/icon_score_mapper.py', "        self._objects = IconScoreMapperObject()\n", "        self._objects = IconScoreMapperObject()\n        self._instances = {}\n"),
], 'a contract which keeps something on its instance, called twice', 'attributes of the instance survive the call', '''
h = Host(ctx)
def driver(node):
    def p(s):
        r = s.__dict__.get('seen', 0)
        s.seen = 1
        return r
    for _ in range(2):
        o = yield h.inv(p)
        expect(o.result, 0, 'attribute of an earlier call')
play(driver, h)
''')

seed('C19-late-reset', 'C19', [
    ('iconscore/icon_score_base.py', "        getattr(calling_obj, \"_InterfaceScore__reset_icx\")()\n\n        if addr_to is None:", "        if addr_to is None:"),
    ('iconscore/icon_score_base.py', "        return InternalCall.message_call(context, addr_from, addr_to, amount, func_name, args, kwargs)\n\n    return __wrapper\n", "        ret = InternalCall.message_call(context, addr_from, addr_to, amount, func_name, args, kwargs)\n        getattr(calling_obj, \"_InterfaceScore__reset_icx\")()\n        return ret\n\n    return __wrapper\n"),
], 'an interface call with an amount which fails, followed by another call of the same object', 'the amount is sent again', '''
h = Host(ctx)
def driver(node):
    vals = []
    def on_call(n, fr, info):
        vals.append(info['value'])
        return ('reply', 32 if len(vals) == 1 else 0, 1, 'x')
    node.on_call = on_call
    def p(s):
        import iconservice
        g = {'__name__': 'x'}
        exec('from iconservice import *\\nclass I(InterfaceScore):\\n    @interface\\n    def f(self): pass\\n', g)
        o = s.create_interface_score(to_py(A2), g['I'])
        try:
            o.icx(5).f()
        except BaseException:
            pass
        o.f()
    o = yield h.inv(p)
    expect(vals, [5, 0], 'amounts')
play(driver, h)
''')

seed('C19-exact-limit', 'C19', [
    ('iconscore/internal_call.py', "        if step_used > new_limit:\n", "        if step_used >= new_limit:\n"),
], 'a callee which uses exactly all steps it was given', 'a successful call is treated as a failure', '''
h = Host(ctx)
def driver(node):
    node.on_call = lambda n, fr, info: ('reply', 0, info['limit'], 'done')
    def p(s):
        return s.call(to_py(A2), 'run', {})
    o = yield h.inv(p, limit=5000)
    expect((o.status, o.used, o.result), (0, 5000, 'done'), 'call using its limit')
play(driver, h)
''')

seed('C20-inherit', 'C20', [
    ('iconscore/icon_score_context.py', "        self.fee_sharing_proportion = 0\n", "        parent = ContextContainer._get_context()\n        self.fee_sharing_proportion = parent.fee_sharing_proportion if parent else 0\n"),
], 'a contract which sets a proportion and then calls another contract', 'the proportion is reported for the called contract too', '''
h = Host(ctx)
def driver(node):
    def p(s):
        s.set_fee_sharing_proportion(50)
        h.prog(1, lambda s: 1)
        s.call(to_py(A2), 'run', {'i': 1})
    o = yield h.inv(p)
    expect((o.frame.fee, o.frame.calls[0][3].frame.fee), ([50], []), 'reported proportions')
play(driver, h)
''')

seed('C20-max-seen', 'C20', [
    ('iconscore/icon_score_base.py', "        self._context.fee_sharing_proportion = proportion\n", "        if proportion > 0:\n            self._context.fee_sharing_proportion = proportion\n"),
], 'a proportion which is set and then set back to 0 in the same call', 'the withdrawn proportion is reported', '''
h = Host(ctx)
def driver(node):
    def p(s):
        s.set_fee_sharing_proportion(50)
        s.set_fee_sharing_proportion(0)
    o = yield h.inv(p)
    if o.frame.fee not in ([], [0]):
        bad('reported %r' % o.frame.fee)
play(driver, h)
''')
