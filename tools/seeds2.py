from seeds import seed

MK = '''
def mk(body, **k):
    return Contract(A1, ctx.scores.make('from iconservice import *\\nclass Score(IconScoreBase):\\n    def __init__(self, db): super().__init__(db)\\n    def on_install(self): pass\\n    def on_update(self): pass\\n' + body), **k)
'''
DB = "        from iconservice import VarDB, ArrayDB, DictDB\n        db = s.__dict__['_mc_db']\n"

seed('C01-below-range', 'C01', [
    ('iconscore/icon_container_db.py', "        if 0 <= index < size:\n            key: bytes", "        if index < size:\n            key: bytes"),
], 'reading an array at an index below -length', 'the read returns a default value instead of failing', '''
h = Host(ctx)
def driver(node):
    def p(s):
''' + DB + '''
        a = ArrayDB('a', db, int)
        a.put(5)
        return attempt(lambda: a[-2])[0]
    o = yield h.inv(p)
    expect(o.result, 'err', 'a[-2] of one entry')
play(driver, h)
''')

seed('C01-bool-other', 'C01', [
    ('iconscore/icon_container_db.py', "            obj_value = bool(bytes_to_int(value))\n", "            obj_value = value == b'\\x01'\n"),
], 'an integer other than 0 and 1 stored in a collection of booleans', 'the stored value reads as False', '''
h = Host(ctx)
def driver(node):
    def p(s):
''' + DB + '''
        v = VarDB('v', db, bool)
        v.set(2)
        return v.get()
    o = yield h.inv(p)
    expect(o.result, True, 'boolean 2')
play(driver, h)
''')

seed('C01-sub-memo', 'C01', [
    ('iconscore/icon_container_db.py', "            return DictDB(key, self._db, self.__value_type, self.__depth - 1)\n", "            sub = self.__subs.get(str(key))\n            if sub is None:\n                sub = self.__subs[str(key)] = DictDB(key, self._db, self.__value_type, self.__depth - 1)\n            return sub\n"),
    ('iconscore/icon_container_db.py', "        self.__depth = depth\n", "        self.__depth = depth\n        self.__subs = {}\n"),
], 'a nested dictionary used with keys of different types which print the same', 'entries under different keys are the same entry', '''
h = Host(ctx)
def driver(node):
    def p(s):
''' + DB + '''
        d = DictDB('d', db, int, depth=2)
        d[1]['x'] = 5
        d['1']['x'] = 6
        return [d[1]['x'], d['1']['x']]
    o = yield h.inv(p)
    expect(o.result, [5, 6], 'entries')
play(driver, h)
''')

seed('C02-long-component', 'C02', [
    ('database/db.py', "    len_bytes = rlp_get_bytes(blen)\n", "    len_bytes = (blen & 0xffff).to_bytes(1 if blen < 256 else 2, 'big')\n"),
], 'a key of 65536 bytes or more', 'the length is truncated in the encoding of the key', '''
import hashlib
h = Host(ctx)
def driver(node):
    k = b'k' * 65536
    def p(s):
''' + DB + '''
        DictDB('d', db, int)[k] = 1
    o = yield h.inv(p)
    want = hashlib.sha3_256(b'\\x01' + b'd' + b'\\xba\\x01\\x00\\x00' + k).digest()
    expect(list(node.stores[A1]), [want], 'storage key')
play(driver, h)
''')

seed('C02-empty-key', 'C02', [
    ('database/db.py', "        if key is not None:\n            key = get_encoded_key(key)\n        key = concat", "        if key:\n            key = get_encoded_key(key)\n        key = concat"),
], 'an empty text or byte string as dictionary key', 'the entry is stored under the key of the dictionary itself', '''
import hashlib
h = Host(ctx)
def driver(node):
    def p(s):
''' + DB + '''
        DictDB('d', db, int)[''] = 1
    o = yield h.inv(p)
    want = hashlib.sha3_256(b'\\x01' + b'd' + b'\\x80').digest()
    expect(list(node.stores[A1]), [want], 'storage key')
play(driver, h)
''')

seed('C02-normalize', 'C02', [
    ('iconscore/icon_container_db.py', "            bytes_key = key.encode('utf-8')\n", "            bytes_key = unicodedata.normalize('NFC', key).encode('utf-8')\n"),
    ('iconscore/icon_container_db.py', "from typing import TypeVar, Optional", "import unicodedata\nfrom typing import TypeVar, Optional"),
], 'keys which differ only in the composition of characters', 'two different keys share an entry', '''
h = Host(ctx)
def driver(node):
    def p(s):
''' + DB + '''
        d = DictDB('d', db, int)
        d['\\u00e9'] = 1
        d['e\\u0301'] = 2
        return d['\\u00e9']
    o = yield h.inv(p)
    expect(o.result, 1, 'entry')
play(driver, h)
''')

seed('C03-negative-power', 'C03', [
    ('utils/__init__.py', "    return ((n + (n < 0)).bit_length() + 8) // 8\n", "    return (n.bit_length() + 8) // 8\n"),
], 'a stored integer that is minus a power of two such as -128', 'the encoding has a redundant byte', '''
h = Host(ctx)
def driver(node):
    def p(s):
''' + DB + '''
        VarDB('v', db, int).set(-128)
    o = yield h.inv(p)
    expect(list(node.stores[A1].values()), [b'\\x80'], 'stored value')
play(driver, h)
''')

seed('C03-surrogate', 'C03', [
    ('ipc/proxy.py', "            return TypeTag.STRING, str.encode(o, 'utf-8')\n", "            return TypeTag.STRING, str.encode(o, 'utf-8', 'replace')\n"),
    ('ipc/proxy.py', "        elif isinstance(o, str):\n            return TypeTag.STRING", "        elif type(o) is str or isinstance(o, str):\n            return TypeTag.STRING"),
], 'a text with an unpaired surrogate as result or argument', 'the text is altered instead of being refused', '''
h = Host(ctx)
def driver(node):
    o = yield h.inv(lambda s: 'a\\ud800')
    if o.status == 0:
        bad('result %r' % (o.result,))
play(driver, h)
''')

seed('C04-round', 'C04', [
    ('iconscore/icon_score_step.py', "            replace_base = (self.get_base_step(StepType.SET) + self.get_base_step(StepType.DELETE)) // 2\n", "            replace_base = int((self.get_base_step(StepType.SET) + self.get_base_step(StepType.DELETE)) / 2)\n"),
], 'a price table whose base prices of set and delete have a negative odd sum (or are very large)', 'replacements are charged one step differently', '''
h = Host(ctx)
def driver(node):
    def p(s):
''' + DB + '''
        VarDB('v', db, bytes).set(b'a')
    yield h.inv(p, costs={'schema': 1})
    o = yield h.inv(p, costs={'schema': 1, 'setBase': 10, 'deleteBase': -15, 'set': 100})
    expect(o.used, 100 - 3, 'steps')
play(driver, h)
''')

seed('C04-fallback-order', 'C04', [
    ('database/db.py', "                    if old_val:\n                        self.__refund_handler(True, len(old_val))\n                    context.step_counter.apply_step(StepType.SET, len(value))\n", "                    context.step_counter.apply_step(StepType.SET, len(value))\n                    if old_val:\n                        self.__refund_handler(True, len(old_val))\n"),
], 'a replacement for which the steps suffice only with the refund of the old value', 'the call runs out of steps although its total never exceeds the limit', '''
h = Host(ctx)
def driver(node):
    def p(s):
''' + DB + '''
        VarDB('v', db, bytes).set(b'a' * 10)
    yield h.inv(p)
    o = yield h.inv(p, costs={'schema': 1, 'setBase': 100, 'deleteBase': 20, 'set': 10, 'delete': -5}, limit=150)
    expect((o.status, o.used), (0, 110), 'replacement')
play(driver, h)
''')

seed('C04-event-chars', 'C04', [
    ('iconscore/icon_score_eventlog.py', "            return len(EventLogEmitter.__get_bytes_from_base_type(data))\n", "            return len(data) if isinstance(data, str) else len(EventLogEmitter.__get_bytes_from_base_type(data))\n"),
], 'an event with text that is not ASCII', 'the event is charged by characters instead of bytes', '''
h = Host(ctx)
def driver(node):
    o = yield h.inv(lambda s: s.Ev(1, '\\u00e9\\u20ac'), costs={'schema': 1, 'log': 1, 'logBase': 0})
    expect(o.used, len('Ev(int,str)') + 1 + 5, 'steps')
play(driver, h)
''')

seed('C04-exit', 'C04', [
    ('service_engine.py', "            ret = cls._internal_call(context)\n            status = Status.SUCCESS\n        except BaseException as e:\n", "            ret = cls._internal_call(context)\n            status = Status.SUCCESS\n        except (Exception, IconServiceBaseException) as e:\n"),
], 'a contract that ends with SystemExit, KeyboardInterrupt or another exception outside Exception', 'the whole limit is charged', '''
h = Host(ctx)
def driver(node):
    def p(s):
        raise SystemExit(1)
    o = yield h.inv(p, limit=100000, costs={'schema': 1})
    expect((o.status, o.used), (1, 0), 'exit')
play(driver, h)
''')

seed('C05-api-format', 'C05', [
    ('pyexec.py', "        status, apis = ServiceEngine.get_score_api(code, self.__verify_package)\n        Logger.debug(f\"get_api({code}) -> {status} {apis}\", TAG)\n        info = APIInfo(self.__proxy)\n", "        status, apis = ServiceEngine.get_score_api(code, self.__verify_package)\n        if status != Status.SUCCESS:\n            self.__proxy.debug(f\"get_api({code}) -> {status} {apis.strip()}\")\n        info = APIInfo(self.__proxy)\n"),
    ('ipc/proxy.py', "        except BaseException:\n            self.__debug_exception(\"Exception in GETAPI\")\n", "        except Exception:\n            self.__debug_exception(\"Exception in GETAPI\")\n"),
], 'an API request for a package that raises an exception whose message is an object with a misbehaving strip()', 'no answer is sent and the engine ends', '''
code = ctx.scores.make('from iconservice import *\\nclass M(str):\\n    def strip(self): raise KeyboardInterrupt\\nraise IconScoreException(M("x"))\\n')
h = Host(ctx)
def driver(node):
    o = yield GetApi(code)
    if o.status == 0:
        bad('status 0')
    o = yield h.inv(lambda s: 1)
    expect(o.result, 1, 'next request')
play(driver, h)
''')

seed('C04-ack-order', 'C04', [
    ('ipc/proxy.py', "            handler, size = self.__set_handlers.pop(0)\n            msg, data = self.__client.receive()\n", "            handler, size = self.__set_handlers.pop()\n            msg, data = self.__client.receive()\n"),
], 'writes of different sizes waiting for acknowledgements', 'acknowledgements are charged with the sizes of other writes', '''
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import VarDB
        VarDB('v', s.__dict__['_mc_db'], bytes).set(b'x' * 100)
        return 1
    def q(s):
        from iconservice import VarDB
        VarDB('v', s.__dict__['_mc_db'], bytes).set(b'x' * 10)
        VarDB('w', s.__dict__['_mc_db'], bytes).set(b'x' * 50)
        return 1
    costs = {'set': 1000, 'replace': 1}
    yield h.inv(p, costs=costs)
    o = yield h.inv(q, costs=costs)
    expect(o.used, 10 * 1 + 50 * 1000, 'steps')
play(driver, h)
''')

seed('C06-hello-log', 'C06', [
    ('pyexec.py', "        self.__proxy.connect(addr)\n        self.__proxy.send_version(version_number, uuid, \"python\")\n        # Logger should be invoked after connect\n        Logger.info(f\"connect({addr}, {uuid})\", TAG)\n",
     "        self.__proxy.connect(addr)\n        # Logger should be invoked after connect\n        Logger.info(f\"connect({addr}, {uuid})\", TAG)\n        self.__proxy.send_version(version_number, uuid, \"python\")\n"),
], 'an engine started with a log level that includes info', 'a log message is sent before the version', '''
from mc import node as N
first = []
orig = N.Node.handle
def handle(self, msg, d):
    first.append(msg)
    return orig(self, msg, d)
N.Node.handle = handle
import os
os.environ['LOG_LEVEL'] = 'trace'
import glob
h = Host(ctx)
def driver(node):
    o = yield h.inv(lambda s: 1)
args = ['-u', 'uuid-1', '-s', '/nonexistent/ee.socket']
for extra in (['-d', 'trace'], []):
    try:
        run_engine(driver, setup=h.setup, args=tuple(args + extra))
    except SystemExit:
        continue
    except Problem as e:
        bad(str(e))
    break
expect(first[0], 0, 'first message')
''')

seed('C06-balance-acks', 'C06', [
    ('ipc/proxy.py', "        self.handle_set_values()\n        return self.__client.receive()\n", "        if msg != Message.GETBALANCE:\n            # which doesn't depend on values\n            self.handle_set_values()\n        return self.__client.receive()\n"),
], 'a balance query while acknowledgements of writes are outstanding', 'the acknowledgement is taken for the balance', '''
h = Host(ctx)
def driver(node):
    node.balances = {A1: 77}
    def p(s):
''' + DB + '''
        VarDB('v', db, int).set(1)
        return s.icx.get_balance(s.address)
    o = yield h.inv(p)
    expect((o.status, o.result), (0, 77), 'balance')
play(driver, h)
''')

seed('C07-tx-cache', 'C07', [
    ('pyexec.py', "        context.tx = Transaction(tx_hash=info.get(Info.TX_HASH),\n                                 index=info.get(Info.TX_INDEX),\n                                 origin=info.get(Info.TX_FROM),\n                                 timestamp=info.get(Info.TX_TIMESTAMP),\n                                 nonce=info.get(Info.TX_NONCE))\n",
     "        # calls of a transaction share it\n        tx_hash = info.get(Info.TX_HASH)\n        if self.__tx is None or self.__tx.hash != tx_hash:\n            self.__tx = Transaction(tx_hash=tx_hash,\n                                    index=info.get(Info.TX_INDEX),\n                                    origin=info.get(Info.TX_FROM),\n                                    timestamp=info.get(Info.TX_TIMESTAMP),\n                                    nonce=info.get(Info.TX_NONCE))\n        context.tx = self.__tx\n"),
    ('pyexec.py', "        self.__verify_package = verify_package\n", "        self.__verify_package = verify_package\n        self.__tx = None\n"),
], 'queries without a transaction hash, with different information', 'a query sees the transaction information of an earlier query', '''
h = Host(ctx)
def driver(node):
    base = {'index': 1, 'txfrom': None, 'nonce': 0, 'txhash': None}
    r = []
    for ts in (5, 9):
        o = yield h.inv(lambda s: s.tx.timestamp, readonly=True, info=dict(base, **{'txtimestamp': ts}))
        r.append(o.result)
    expect(r, [5, 9], 'timestamps')
play(driver, h)
''')

seed('C07-revision-zero', 'C07', [
    ('pyexec.py', "        context.revision = info.get(Info.REVISION)\n", "        context.revision = self.__revision = info.get(Info.REVISION) or self.__revision\n"),
    ('pyexec.py', "        self.__verify_package = verify_package\n", "        self.__verify_package = verify_package\n        self.__revision = 0\n"),
], 'a call with revision 0 after one with another revision', 'the call runs with the revision of an earlier one', '''
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import json_dumps
        return json_dumps([1, 2])
    r = []
    for rev in (256, 0):
        o = yield h.inv(p, info={'revision': rev})
        r.append(o.result)
    expect(r, ['[1,2]', '[1, 2]'], 'revision')
play(driver, h)
''')

seed('C07-failed-free', 'C07', [
    ('iconscore/internal_call.py', "        context.step_counter.add_step(step_used)\n\n        if status == ExceptionCode.OK:\n            return result\n", "\n        if status == ExceptionCode.OK:\n            context.step_counter.add_step(step_used)\n            return result\n"),
], 'a nested call that fails and is caught', 'the caller is not charged for the failed call', '''
h = Host(ctx)
def driver(node):
    def on_call(n, fr, info):
        return ('reply', 32, 1000, 'x')
    node.on_call = on_call
    def p(s):
        try:
            s.call(to_py(A2), 'run', {'i': 1})
        except BaseException:
            pass
    o = yield h.inv(p, costs={'schema': 1})
    expect(o.used, 1000, 'steps')
play(driver, h)
''')

seed('C08-event-method', 'C08', [
    ('iconscore/icon_score_eventlog.py', "        if context.readonly:\n", "        if context.type == IconScoreContextType.QUERY:\n"),
    ('iconscore/icon_score_eventlog.py', "from ..icon_constant import DATA_BYTE_ORDER, ICX_TRANSFER_EVENT_LOG", "from ..icon_constant import DATA_BYTE_ORDER, ICX_TRANSFER_EVENT_LOG, IconScoreContextType"),
], 'a read-only method invoked without the read-only flag that emits an event', 'the event leaves the engine', '''
c = Contract(A1, ctx.scores.make("""
from iconservice import *
class Score(IconScoreBase):
    def __init__(self, db): super().__init__(db)
    def on_install(self): pass
    def on_update(self): pass
    @eventlog
    def E(self, a: int): pass
    @external(readonly=True)
    def v(self) -> int:
        try:
            self.E(1)
        except BaseException:
            pass
        return 1
"""))
def driver(node):
    o = yield Invoke(c, 'v', [])
    expect(list(o.frame.events), [], 'events of a read-only method')
play(driver)
''')

seed('C08-empty-write', 'C08', [
    ('database/db.py', "        if not _is_db_writable_on_context(context):\n            raise DatabaseException('No permission to write')\n\n        if value:\n            try:\n", "        if value:\n            if not _is_db_writable_on_context(context):\n                raise DatabaseException('No permission to write')\n            try:\n"),
], 'a read-only method that sets a variable to an empty text', 'a deletion leaves the engine', '''
c = Contract(A1, ctx.scores.make("""
from iconservice import *
class Score(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self.v = VarDB('v', db, str)
    def on_install(self): pass
    def on_update(self): pass
    @external(readonly=True)
    def get(self) -> str:
        try:
            self.v.set('')
        except IconServiceBaseException if 'IconServiceBaseException' in globals() else BaseException:
            pass
        return 'x'
"""))
def driver(node):
    o = yield Invoke(c, 'get', [])
    expect([t for t in o.frame.trace if t[0] in ('set', 'del', 'SET', 'delete')], [], 'writes of a read-only method')
    if 'set' in repr(o.frame.trace).lower():
        bad('trace %r' % (o.frame.trace,))
play(driver)
''')

seed('C09-fallback-any', 'C09', [
    ('iconscore/icon_score_base.py', "        return isinstance(func, FunctionMetadata) and func.is_payable\n", "        return func is None or isinstance(func, FunctionMetadata) and func.is_payable\n"),
], 'a transfer to a contract whose default method is not payable', 'the default method runs and takes the amount', MK + '''
c = mk('    @external\\n    def run(self): return 1\\n    def fallback(self): return None\\n')
def driver(node):
    o = yield Invoke(c, 'fallback', [], value=5)
    expect(o.status, 3, 'status')
play(driver)
''')

seed('C09-install-pays', 'C09', [
    ('iconscore/icon_score_base.py', "        if self.msg.value > 0 and not self.__is_payable_method(func_name):\n", "        # on_install and on_update are not called by transfers\n        if self.msg.value > 0 and func_name not in (STR_ON_INSTALL, STR_ON_UPDATE) \\\n                and not self.__is_payable_method(func_name):\n"),
], 'an installation or update with an amount', 'the amount is taken by a method that is not payable', MK + '''
c = mk('    @external\\n    def run(self): return 1\\n')
def driver(node):
    o = yield Invoke(c, 'on_install', [], value=5)
    expect(o.status, 4, 'status')
play(driver)
''')

seed('C10-dict-output', 'C10', [
    ('iconscore/typing/definition.py', "    elif is_struct(origin) or origin is dict:\n", "    elif is_struct(origin) or type_hint is dict:\n"),
], 'a read-only method with a parametrized dictionary as result type', 'the API has no output for it', MK + '''
c = mk('    @external(readonly=True)\\n    def run(self) -> "Dict": return {}\\n'.replace('"Dict"', 'typing.Dict[str, int]'))
src = open(c.code + '/main.py').read()
open(c.code + '/main.py', 'w').write('import typing\\n' + src)
def driver(node):
    o = yield GetApi(c.code)
    run = [e for e in o.data if e[1] == b'run'][0]
    expect(run[5], [7], 'outputs')
play(driver)
''')

seed('C10-struct-fields', 'C10', [
    ('iconscore/typing/element.py', "    if size > _MAX_STRUCT_FIELDS:\n", "    if size >= _MAX_STRUCT_FIELDS:\n"),
], 'a structure of exactly 16 fields', 'the contract is refused', '''
code = ctx.scores.make('from iconservice import *\\nfrom typing_extensions import TypedDict\\n'.replace('typing_extensions', 'typing') + 'T = TypedDict("T", {"f%d" % i: int for i in range(16)})\\nclass Score(IconScoreBase):\\n    def __init__(self, db): super().__init__(db)\\n    def on_install(self): pass\\n    def on_update(self): pass\\n    @external\\n    def run(self, a: T): return 1\\n')
def driver(node):
    o = yield GetApi(code)
    expect(o.status, 0, 'status')
play(driver)
''')

seed('C10-only-events', 'C10', [
    ('iconscore/typing/element.py', "        if isinstance(v, FunctionMetadata):\n            self._externals += 1\n        elif isinstance(v, EventLogMetadata):\n            self._eventlogs += 1\n", "        if isinstance(v, (FunctionMetadata, EventLogMetadata)):\n            self._externals += 1\n            self._eventlogs += isinstance(v, EventLogMetadata)\n"),
], 'a contract that declares events but no external method', 'the contract is accepted', MK + '''
c = mk('    @eventlog\\n    def E(self): pass\\n')
def driver(node):
    o = yield GetApi(c.code)
    if o.status == 0:
        bad('accepted')
play(driver)
''')

seed('C11-bool-two', 'C11', [
    ('base/type_converter.py', "            return bool(TypeConverter._convert_value_int(value))\n", "            return TypeConverter._convert_value_int(value) == 1\n"),
], 'a boolean parameter given as an integer other than 0 and 1', 'the method gets False', MK + '''
c = mk('    @external\\n    def run(self, a: bool): return a\\n')
def driver(node):
    o = yield Invoke(c, 'run', {'a': '0x2'})
    expect((o.status, o.result), (0, True), 'argument')
play(driver)
''')

seed('C11-strip-prefix', 'C11', [
    ('base/type_converter.py', "            if value.startswith('0x'):\n                return bytes.fromhex(value[2:])\n            else:\n                return bytes.fromhex(value)\n", "            return bytes.fromhex(value.lstrip('0x'))\n"),
], 'bytes which start with zero', 'leading zeros are lost', MK + '''
c = mk('    @external\\n    def run(self, a: bytes): return a\\n')
def driver(node):
    o = yield Invoke(c, 'run', {'a': '0x0012'})
    expect((o.status, o.result), (0, b'\\0\\x12'), 'argument')
play(driver)
''')

seed('C11-default-shift', 'C11', [
    ('service_engine.py', "        tmp_params = kw_params\n        score_func = getattr(icon_score, func_name)\n", "        score_func = getattr(icon_score, func_name)\n        # parameters without a value take the default\n        tmp_params = {k: v for k, v in kw_params.items() if v is not None}\n"),
], 'a parameter given as null by name', 'the default is used instead of null', MK + '''
c = mk('    @external\\n    def run(self, a: int = 5): return a\\n')
def driver(node):
    o = yield Invoke(c, 'run', {'a': None})
    expect((o.status, o.result), (0, None), 'argument')
play(driver)
''')

seed('C12-newline', 'C12', [
    ('utils/__init__.py', "        result = re.match('[0-9a-f]+', value)\n        return len(result.group(0)) == len(value)\n", "        return re.match('[0-9a-f]+$', value) is not None\n"),
], 'a text of 42 characters that ends with a line feed', 'it is not refused as an invalid parameter', '''
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import Address
        return attempt(Address.from_string, 'hx' + 'a' * 39 + '\\n')
    o = yield h.inv(p)
    expect(o.result, ['err', 6], 'text with line feed')
play(driver, h)
''')

seed('C12-digits', 'C12', [
    ('utils/__init__.py', "re.match('[0-9a-f]+', value)", "re.match(r'[\\da-f]+', value)"),
], 'a text with digits of another script', 'it is not refused as an invalid parameter', '''
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import Address
        return attempt(Address.from_string, 'hx' + '\\u0661' * 40)
    o = yield h.inv(p)
    expect(o.result, ['err', 6], 'other digits')
play(driver, h)
''')

seed('C13-duplicate', 'C13', [
    ('iconscore/icon_score_base.py', "            value = args[i]\n            if name in kwargs:\n                raise", "            value = args[i]\n            if name in kwargs and kwargs[name] != value:\n                raise"),
], 'an event with the same value given positionally and by name, and another parameter left to its default', 'the event is emitted', MK + '''
c = mk('    @eventlog\\n    def E(self, a: int, b: int = 3): pass\\n    @external\\n    def run(self): self.E(1, a=1)\\n')
def driver(node):
    o = yield Invoke(c, 'run', [])
    if o.status == 0:
        bad('duplicate accepted')
play(driver)
''')

seed('C13-reserved-name', 'C13', [
    ('iconscore/icon_score_base.py', "        if event_signature == ICX_TRANSFER_EVENT_LOG:\n", "        if event_signature.startswith(ICX_TRANSFER_EVENT_LOG.split('(')[0]):\n"),
], 'an event whose name starts with ICXTransfer but has another signature', 'the event can not be emitted', MK + '''
c = mk('    @eventlog\\n    def ICXTransferred(self, a: int): pass\\n    @external\\n    def run(self): self.ICXTransferred(1)\\n')
def driver(node):
    o = yield Invoke(c, 'run', [])
    expect((o.status, len(o.frame.events)), (0, 1), 'event')
play(driver)
''')

seed('C13-quoted-hint', 'C13', [
    ('iconscore/icon_score_base.py', "        if main_type == 'Address':\n            main_type = Address\n\n        if value is not None and not isinstance(value, main_type):\n", "        if value is not None and isinstance(main_type, type) and not isinstance(value, main_type):\n"),
], "an event with a parameter declared as 'Address' in quotes and a value of another type", 'the value is accepted', MK + '''
c = mk("    @eventlog\\n    def E(self, a: 'Address'): pass\\n    @external\\n    def run(self): self.E('hx00')\\n")
def driver(node):
    o = yield Invoke(c, 'run', [])
    if o.status == 0:
        bad('text accepted as address')
play(driver)
''')

seed('C14-truncate', 'C14', [
    ('base/exception.py', "        self.__message = message\n        self.__code = code\n", "        self.__message = message[:4096] if isinstance(message, str) else message\n        self.__code = code\n"),
], 'a failure message of more than 4096 characters', 'the message is cut', '''
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import revert
        revert('m' * 5000, 3)
    o = yield h.inv(p)
    expect((o.status, len(o.result)), (35, 5000), 'failure')
play(driver, h)
''')

seed('C14-index-clamp', 'C14', [
    ('base/exception.py', "        code = ExceptionCode.SCORE_ERROR + index\n        if code < ExceptionCode.SCORE_ERROR:\n", "        code = ExceptionCode.SCORE_ERROR + index\n        if code <= ExceptionCode.OK:\n"),
], 'a revert with a code between -31 and -1', 'the status is one of the codes of the engine', '''
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import revert
        revert('m', -22)
    o = yield h.inv(p)
    expect(o.status, 32, 'status')
play(driver, h)
''')

seed('C14-nested-system', 'C14', [
    ('base/exception.py', "        return IconServiceBaseException(msg, code=code + ExceptionCode.OK)\n", "        return IconServiceBaseException(msg, code=min(code, ExceptionCode.OUT_OF_STEP) + ExceptionCode.OK)\n"),
], 'a nested call that fails with a status reported by the node above out-of-step (out of balance, timeout, stack overflow)', 'the caller sees another status', '''
h = Host(ctx)
def driver(node):
    node.on_call = lambda n, fr, info: ('reply', 11, 1, 'no balance')
    def p(s):
        s.call(to_py(A2), 'run', {'i': 1})
    o = yield h.inv(p)
    expect(o.status, 11, 'status')
play(driver, h)
''')

seed('C15-own-names', 'C15', [
    ('iconscore/score_package_validator.py', "        if import_name not in cls.WHITELIST_IMPORT:\n", "        if import_name not in cls.WHITELIST_IMPORT and import_name not in cls.CUSTOM_IMPORT_LIST:\n"),
], 'a package with a module named as a module of Python', 'import of the module of Python is accepted', '''
src = """
from iconservice import *
import os
class Score(IconScoreBase):
    def __init__(self, db): super().__init__(db)
    def on_install(self): pass
    def on_update(self): pass
    @external
    def run(self): return os.getcwd()
"""
code = ctx.scores.make(src, files={'os.py': 'x = 1\\n'})
def driver(node):
    o = yield GetApi(code)
    if o.status == 0:
        bad('package with import of os is accepted')
play(driver, args=('-p', '-u', 'uuid-1', '-s', '/nonexistent/ee.socket'))
''')

seed('C15-submodule', 'C15', [
    ('iconscore/score_package_validator.py', "        if import_name not in cls.WHITELIST_IMPORT:\n", "        if import_name.partition('.')[0] not in cls.WHITELIST_IMPORT:\n"),
], 'an import of a module inside the allowed package', 'it is accepted', '''
src = """
from iconservice import *
import iconservice.internals
class Score(IconScoreBase):
    def __init__(self, db): super().__init__(db)
    def on_install(self): pass
    def on_update(self): pass
    @external
    def run(self): return 1
"""
code = ctx.scores.make(src)
def driver(node):
    o = yield GetApi(code)
    # refused for the import itself, not because it fails later
    expect(o.status, 5, 'status')
play(driver, args=('-p', '-u', 'uuid-1', '-s', '/nonexistent/ee.socket'))
''')

seed('C15-same-name', 'C15', [
    ('iconscore/score_package_validator.py', "        tmp_list = []\n        for dir_path", "        tmp_list = []\n        seen = set()\n        for dir_path"),
    ('iconscore/score_package_validator.py', "            for file in filenames:\n", "            filenames = [f for f in filenames if f not in seen]\n            seen.update(filenames)\n            for file in sorted(filenames):\n"),
], 'a package with files of the same name in different directories', 'only one of them is validated', '''
src = """
from iconservice import *
from .a import util
class Score(IconScoreBase):
    def __init__(self, db): super().__init__(db)
    def on_install(self): pass
    def on_update(self): pass
    @external
    def run(self): return util.f()
"""
code = ctx.scores.make(src, files={'a/util.py': 'import os\\ndef f(): return os.getcwd()\\n', 'a/__init__.py': '', 'util.py': '', '__init__.py': ''})
def driver(node):
    o = yield GetApi(code)
    if o.status == 0:
        bad('package with import of os is accepted')
play(driver, args=('-p', '-u', 'uuid-1', '-s', '/nonexistent/ee.socket'))
''')

seed('C16-round', 'C16', [
    ('iconscore/icon_score_base2.py', "        step: int = step_cost + step_cost * chunks // 10\n", "        step: int = step_cost + step_cost // 10 * chunks\n"),
], 'a price that is not a multiple of 10', 'a hash is charged less', '''
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import sha3_256
        sha3_256(b'x' * 64)
    o = yield h.inv(p, costs={'schema': 1, 'apiCall': 15})
    expect(o.used, 18, 'steps')
play(driver, h)
''')

seed('C16-recovery-id', 'C16', [
    ('iconscore/icon_score_base2.py', "PublicKey.from_signature_and_message(signature, msg_hash", "PublicKey.from_signature_and_message(signature[:64] + bytes([signature[64] % 27]), msg_hash"),
], 'a signature with a recovery id of 27 or more', 'a key is returned for a malformed signature', '''
from coincurve import PrivateKey
sig = PrivateKey(b'\\x05' * 32).sign_recoverable(b'h' * 32, hasher=None)
h = Host(ctx)
def driver(node):
    def p(s):
        from iconservice import recover_key
        return [recover_key(b'h' * 32, sig) is not None, recover_key(b'h' * 32, sig[:64] + bytes([sig[64] + 27]))]
    o = yield h.inv(p)
    expect(o.result, [True, None], 'keys')
play(driver, h)
''')

seed('C17-assert', 'C17', [
    ('iconscore/internal_call.py', "        if step_used > new_limit:\n            context.step_counter.add_step(new_limit)\n            raise AssertionError('Used step must be lower than the given limit')\n        context.step_counter.add_step(step_used)\n",
     "        context.step_counter.add_step(min(step_used, new_limit))\n        assert step_used <= new_limit, 'Used step must be lower than the given limit'\n"),
], 'an engine started with optimisation and a callee that reports more steps than its limit', 'the outcome depends on the optimisation level', '''
import os, sys
if not sys.flags.optimize:
    os.execv(sys.executable, [sys.executable, '-O'] + sys.argv)
h = Host(ctx)
def driver(node):
    node.on_call = lambda n, fr, info: ('reply', 0, 10 ** 9, 'x')
    def p(s):
        s.call(to_py(A2), 'run', {'i': 1})
    o = yield h.inv(p, limit=1000, costs={'schema': 1})
    expect((o.status, o.used), (1, 1000), 'call over the limit')
play(driver, h)
''')

seed('C17-api-set', 'C17', [
    ('base/type_converter.py', "        for key, param in annotation_params.items():\n", "        for key in set(annotation_params) & set(kw_params):\n            param = annotation_params[key]\n"),
], 'two malformed keyword arguments, under different hash seeds', 'which of the failures is reported depends on the hash seed', '''
import os, sys, subprocess
if 'CHILD' not in os.environ:
    out = {subprocess.run([sys.executable] + sys.argv, env=dict(os.environ, CHILD='1', PYTHONHASHSEED=str(i)), capture_output=True, text=True).stdout for i in range(12)}
    if len(out) != 1 or 'status' not in min(out):
        bad('outcomes %r' % out)
    sys.exit(0)
''' + MK + '''
c = mk('    @external\\n    def run(self, a: int, b: Address): return 1\\n')
def driver(node):
    o = yield Invoke(c, 'run', {'a': 'zz', 'b': 'zz'})
    print('status', o.status, o.result)
play(driver)
''')

seed('C18-package-json', 'C18', [
    ('iconscore/icon_score_loader.py', "        pkg_json_path = os.path.join(score_path, PACKAGE_JSON_FILE)\n        with open(pkg_json_path, 'r') as f:\n            return json.load(f)\n", "        package_json = IconScoreLoader._packages.get(score_path)\n        if package_json is None:\n            pkg_json_path = os.path.join(score_path, PACKAGE_JSON_FILE)\n            with open(pkg_json_path, 'r') as f:\n                package_json = IconScoreLoader._packages[score_path] = json.load(f)\n        return package_json\n"),
    ('iconscore/icon_score_loader.py', "class IconScoreLoader(object):\n", "class IconScoreLoader(object):\n    _packages = {}\n"),
], 'a package whose description is incomplete at first and complete later', 'the contract can not be loaded any more', '''
import os, json
h = Host(ctx)
code = ctx.scores.make(None, files={'main.py': open(h.code + '/main.py').read()}, package={'version': '1'})
c = Contract(A1, code)
def driver(node):
    o = yield Invoke(c, 'run', [1])
    if o.status == 0:
        bad('incomplete package runs')
    json.dump({'version': '1', 'main_module': 'main', 'main_score': 'Score'}, open(code + '/package.json', 'w'))
    src = open(code + '/main.py').read()
    h.prog(1, lambda s: 5)
    o = yield Invoke(c, 'run', [1])
    expect((o.status, o.result), (0, 5), 'complete package')
play(driver, h)
''')

seed('C18-dir-cache', 'C18', [
    ('iconscore/icon_score_loader.py', "        importlib.invalidate_caches()\n", "        if dirname not in sys.path_importer_cache:\n            importlib.invalidate_caches()\n"),
], 'a package that appears without a visible change of the modification time of its directory', 'the package can not be found', '''
import os
h = Host(ctx)
root = os.path.dirname(h.code)
def driver(node):
    o = yield h.inv(lambda s: 1)
    st = os.stat(root)
    src = open(h.code + '/main.py').read()
    code = ctx.scores.make(src)
    os.utime(root, ns=(st.st_atime_ns, st.st_mtime_ns))
    c = Contract(A2, code)
    h.prog(1, lambda s: 5)
    o = yield Invoke(c, 'run', [1])
    expect((o.status, o.result), (0, 5), 'new package')
play(driver, h)
''')

seed('C18-short-key', 'C18', [
    ('iconscore/icon_score_mapper.py', "        key = hashlib.sha3_256(code_path.encode()).digest()\n", "        key = hashlib.sha3_256(os.path.basename(code_path)[:16].encode()).digest()\n"),
    ('iconscore/icon_score_mapper.py', "import hashlib\n", "import hashlib\nimport os\n"),
], 'two packages whose directory names agree in the first 16 characters', 'the code of one runs for the other', MK + '''
cs = [Contract(a, ctx.scores.make('from iconservice import *\\nclass Score(IconScoreBase):\\n    def __init__(self, db): super().__init__(db)\\n    def on_install(self): pass\\n    def on_update(self): pass\\n    @external\\n    def run(self): return %d\\n' % i, name='0x' + 'a' * 61 + '%d' % i)) for i, a in ((1, A1), (2, A2))]
def driver(node):
    for i in (1, 2):
        o = yield Invoke(cs[i - 1], 'run', [])
        expect((o.status, o.result), (0, i), 'result')
play(driver)
''')

seed('C19-mixed', 'C19', [
    ('iconscore/internal_call.py', "            if arg_params is not None and len(arg_params) > 0:\n                params[\".\"] = arg_params\n", "            if arg_params is not None and len(arg_params) > 1:\n                params[\".\"] = arg_params\n"),
], 'an interface call with exactly one positional and some keyword arguments', 'the positional argument is lost', '''
h = Host(ctx)
def driver(node):
    seen = []
    def on_call(n, fr, info):
        seen.append(info['params'])
        return ('reply', 0, 1, None)
    node.on_call = on_call
    def p(s):
        g = {'__name__': 'x'}
        exec('from iconservice import *\\nclass I(InterfaceScore):\\n    @interface\\n    def f(self, a, b): pass\\n', g)
        s.create_interface_score(to_py(A2), g['I']).f(1, b=2)
    o = yield h.inv(p)
    expect(seen, [{'b': 2, '.': [1]}], 'arguments')
play(driver, h)
''')

seed('C19-fallback-name', 'C19', [
    ('iconscore/internal_call.py', "        if func_name is None or func_name == STR_FALLBACK:\n", "        if func_name is None:\n"),
], "a call that names the default method 'fallback'", 'the name is sent instead of the empty name', '''
h = Host(ctx)
def driver(node):
    seen = []
    def on_call(n, fr, info):
        seen.append(info['method'])
        return ('reply', 0, 1, None)
    node.on_call = on_call
    o = yield h.inv(lambda s: s.call(to_py(A2), 'fallback', {}, 1))
    expect(seen, [''], 'method')
play(driver, h)
''')

seed('C19-send-escape', 'C19', [
    ('iconscore/icon_score_base2.py', "            self.transfer(addr_to, amount)\n            return True\n        except:\n            return False\n", "            self.transfer(addr_to, amount)\n            return True\n        except IconServiceBaseException:\n            return False\n"),
    ('iconscore/icon_score_base2.py', "from ..base.exception import InvalidParamsException, IconScoreException, InvalidInstanceException\n", "from ..base.exception import InvalidParamsException, IconScoreException, InvalidInstanceException, IconServiceBaseException\n"),
], 'a coin transfer with send() whose recipient reports more steps than its limit', 'send() raises instead of returning False', '''
h = Host(ctx)
def driver(node):
    node.on_call = lambda n, fr, info: ('reply', 0, 10 ** 9, None)
    o = yield h.inv(lambda s: s.icx.send(to_py(A2), 1), limit=1000, costs={'schema': 1})
    expect((o.status, o.result), (0, False), 'send')
play(driver, h)
''')

seed('C20-hundred', 'C20', [
    ('iconscore/icon_score_base.py', "        if proportion < 0 or proportion > 100:\n", "        if proportion not in range(0, 100):\n"),
], 'a proportion of exactly 100', 'it is refused', '''
h = Host(ctx)
def driver(node):
    o = yield h.inv(lambda s: s.set_fee_sharing_proportion(100))
    expect((o.status, o.frame.fee), (0, [100]), 'proportion')
play(driver, h)
''')

seed('C20-same-silent', 'C20', [
    ('pyexec.py', "        self.__proxy.set_fee_proportion(pct)\n", "        # the manager knows it already\n        if pct != self.__fee_pct:\n            self.__proxy.set_fee_proportion(pct)\n        self.__fee_pct = pct\n"),
    ('pyexec.py', "        self.__verify_package = verify_package\n", "        self.__verify_package = verify_package\n        self.__fee_pct = 0\n"),
], 'calls that set proportions one after the other', 'a proportion which is that of the last call is not reported', '''
h = Host(ctx)
def driver(node):
    r = []
    for _ in range(2):
        o = yield h.inv(lambda s: s.set_fee_sharing_proportion(50))
        r.append(o.frame.fee)
    expect(r, [[50], [50]], 'proportions')
play(driver, h)
''')
