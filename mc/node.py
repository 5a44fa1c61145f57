"""Model of the node side (Go service manager) talking to the real Python execution engine.

The real `pyexec.__main__.main()` runs in this process; only `socket.socket` is replaced by FakeSocket, so every
byte the engine exchanges passes through here. The node is single threaded and deterministic: it answers every
request of the engine at once and hands over the next top-level request (from the driver generator) only when the
engine is idle and reads.
"""
import collections
import copy
import os
import socket
import sys
import traceback

import msgpack

from . import wire as W


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# The node answers message by message over a unix socket whose default buffers (212992 bytes, at least 768 per message)
# hold some 270 small replies; as many requests fit in the other direction before both sides block for good.
UNREAD_MAX = 560


class Problem(Exception):
    """A violation found by the harness."""


class Contract:
    def __init__(self, addr, code, owner=None, readonly=(), order=None):
        self.addr, self.code = addr, code
        # declared parameter names per method: the node hands arguments over by position (EnsureParamsSequential)
        self.order = dict(run=['i'], view=['i'], pay=['i'], echo=['x']) if order is None else order
        self.owner = owner or W.addr(0, 0x0e0e)
        self.readonly = set(readonly)


DEFAULT_COSTS_V1 = {'schema': 1, 'get': 80, 'getBase': 2000, 'set': 320, 'setBase': 5000, 'delete': -240,
                    'deleteBase': 3000, 'log': 200, 'logBase': 5000, 'apiCall': 10000, 'unknownStep': 7}
DEFAULT_COSTS_V0 = {'get': 25, 'set': 320, 'replace': 80, 'delete': -240, 'eventLog': 100, 'apiCall': 10000}
FREE = {}

DEF_INFO = dict(timestamp=1_600_000_000_000_000, height=1000, txhash=bytes(range(32)), index=3,
                txfrom=W.addr(0, 0xaa), txtimestamp=1_599_999_999_000_000, nonce=77, revision=0)


class Invoke:
    def __init__(self, contract, method='run', params=(), frm=W.addr(0, 0xaa), value=0, limit=10 ** 12,
                 readonly=False, costs=None, info=None, raw_params=None, flag=None, code=None, to=None):
        self.contract, self.method = contract, method
        self.params = list(params) if isinstance(params, tuple) else params
        self.frm, self.value, self.limit, self.readonly = frm, value, limit, readonly
        self.costs = FREE if costs is None else costs
        self.info = dict(DEF_INFO, **(info or {}))
        self.raw_params = raw_params
        self.flag = flag
        self.code = code if code is not None else contract.code
        self.to = to if to is not None else contract.addr


class GetApi:
    def __init__(self, code):
        self.code = code


class Frame:
    """One active request as the node sees it."""

    def __init__(self, req, readonly, depth, saved):
        self.req, self.readonly, self.depth, self.saved = req, readonly, depth, saved
        self.trace = []       # node-visible operations in order
        self.events = []      # (indexed, data) still standing at the end
        self.fee = []         # SETFEEPCT values
        self.calls = []       # Outcome of nested calls
        self.sent_while_ro = []
        self.result = None


class Outcome:
    def __init__(self, frame, status, used, result, raw):
        self.frame, self.status, self.used, self.result, self.raw = frame, status, used, result, raw

    @property
    def ok(self):
        return self.status == 0

    def brief(self):
        return dict(status=self.status, used=self.used, result=repr(self.result))


class ApiOutcome:
    def __init__(self, status, data):
        self.status, self.data = status, data


class FakeSocket:
    def __init__(self, node):
        self.node = node
        self.closed = False

    def connect(self, address):
        self.node.connected_to = address

    def sendall(self, b, *a):
        self.node.feed(bytes(b))

    def send(self, b, *a):
        self.node.feed(bytes(b))
        return len(b)

    def recv(self, n, *a):
        return self.node.read(n)

    def recv_into(self, buf, nbytes=0, *a):
        d = self.node.read(nbytes or len(buf))
        buf[:len(d)] = d
        return len(d)

    def close(self):
        self.closed = True
        self.node.socket_closed = True

    def shutdown(self, *a):
        pass

    def setsockopt(self, *a):
        pass

    def settimeout(self, *a):
        pass

    def setblocking(self, *a):
        pass

    def fileno(self):
        return -1


class Node:
    def __init__(self, driver_fn, chunk=None):
        self.stores = {}
        self.balances = {}
        self.contracts = {}
        self.frames = []
        self.out = bytearray()
        self.unpacker = msgpack.Unpacker(raw=True, max_buffer_size=2 ** 31 - 1)
        self.driver_fn = driver_fn
        self.driver = None
        self.started = False
        self.closing = False
        self.dead = None
        self.dead_reads = 0
        self.connected_to = None
        self.socket_closed = False
        self.version = None
        self.messages = 0
        self.requests = 0
        self.answers = 0
        self.logs = 0
        self.log_lines = []
        self.keep_logs = False
        self.last = None
        self.chunk = chunk            # callable(avail, n) -> bytes to deliver
        self.on_call = None           # callable(node, frame, callinfo) -> None | ('reply', status, used, result)
        self.call_cost = 0
        self.nested_hook = None       # callable(frame, req): may change the nested request
        self.hook = None              # callable(node, frame, msg, data): observes engine messages
        self.ro_messages = []         # state-changing messages while read-only
        self.value_limit = None
        # bounded socket buffers: ends of the messages which the engine has not taken from the socket yet
        self.unread = collections.deque()
        self.pushed = self.taken = 0

    # -- problem handling: record and starve the engine so that it unwinds ------------------------------------
    def problem(self, text):
        if self.dead is None:
            self.dead = text

    # -- engine -> node ------------------------------------------------------------------------------------
    def feed(self, b):
        self.unpacker.feed(b)
        try:
            for m in self.unpacker:
                self.messages += 1
                if not isinstance(m, list) or len(m) != 2 or not isinstance(m[0], int):
                    return self.problem('malformed message %r' % (m,))
                if self.dead is None:
                    if len(self.unread) > UNREAD_MAX:
                        return self.problem('deadlock: the node blocks sending, the engine has %d replies unread and '
                                            'keeps sending' % len(self.unread))
                    self.handle(m[0], m[1])
        except W.WireError as e:
            self.problem('engine sent a malformed value: %s' % e)
        except (IndexError, TypeError, KeyError, ValueError, AttributeError) as e:
            self.problem('engine sent a malformed message: %s: %s' % (type(e).__name__, traceback.format_exc(limit=3)))

    def push(self, msg, data):
        n = len(self.out)
        self.out += msgpack.packb([msg, data], use_bin_type=True)
        self.pushed += len(self.out) - n
        self.unread.append(self.pushed)

    def took(self, k):
        self.taken += k
        while self.unread and self.unread[0] <= self.taken:
            self.unread.popleft()

    def handle(self, msg, d):
        if msg == W.M_LOG:
            if self.version is None:
                return self.problem('LOG before VERSION: %r' % (d,))
            if not (isinstance(d, list) and len(d) == 3 and isinstance(d[0], int) and isinstance(d[1], int)
                    and isinstance(d[2], bytes)):
                raise W.WireError('bad LOG %r' % (d,))
            try:
                d[2] = d[2].decode('utf-8')
            except UnicodeDecodeError:
                raise W.WireError('bad LOG %r' % (d,))
            self.logs += 1
            if self.keep_logs:
                self.log_lines.append(d)
            return
        if msg == W.M_VERSION:
            if self.version is not None:
                return self.problem('VERSION sent twice')
            self.version = d
            return
        if self.version is None:
            return self.problem('message %d before VERSION' % msg)
        if not self.frames:
            return self.problem('message %d %r while no request is active' % (msg, d))
        fr = self.frames[-1]
        if self.hook:
            self.hook(self, fr, msg, d)
        if isinstance(fr.req, GetApi):
            if msg == W.M_GETAPI:
                self.frames.pop()
                self.answers += 1
                if not (isinstance(d, list) and len(d) == 2 and isinstance(d[0], int)):
                    return self.problem('bad GETAPI reply %r' % (d,))
                self.finish(ApiOutcome(d[0], d[1]), fr)
                return
            return self.problem('message %d during an API request' % msg)
        store = self.stores.setdefault(fr.req.to, {})
        if msg == W.M_RESULT:
            if not (isinstance(d, list) and len(d) == 3):
                raise W.WireError('bad RESULT %r' % (d,))
            status, used, res = d
            if not isinstance(status, int) or isinstance(status, bool):
                raise W.WireError('bad RESULT status %r' % (status,))
            self.answers += 1
            o = Outcome(fr, status, W.int_dec(used), W.any_dec(res), res)
            fr.result = o
            self.frames.pop()
            if status != 0:
                self.stores, self.balances = fr.saved
                fr.events = []
            elif self.frames:
                self.frames[-1].events.extend(fr.events)
            self.finish(o, fr)
        elif msg == W.M_GETVALUE:
            self.key(d)
            v = store.get(d)
            fr.trace.append(('get', d, None if v is None else len(v)))
            self.push(W.M_GETVALUE, [v is not None, v])
        elif msg == W.M_SETVALUE:
            k, flag, v = d
            self.key(k)
            if not isinstance(flag, int) or flag & ~3:
                raise W.WireError('bad SETVALUE flag')
            if flag & W.SV_DELETE:
                v = None
            elif not isinstance(v, bytes):
                raise W.WireError('bad SETVALUE value %r' % (v,))
            if fr.readonly:
                fr.sent_while_ro.append('SETVALUE')
                self.ro_messages.append('SETVALUE')
            old = store.get(k)
            fr.trace.append(('set', k, v, old))
            if v is None or len(v) == 0:
                store.pop(k, None)
            else:
                store[k] = v
            if flag & W.SV_OLDVALUE:
                self.push(W.M_SETVALUE, [old is not None, len(old or b'')])
        elif msg == W.M_CALL:
            self.call(fr, d)
        elif msg == W.M_EVENT:
            indexed, data = d
            for x in list(indexed) + list(data):
                if x is not None and not isinstance(x, bytes):
                    raise W.WireError('bad EVENT field %r' % (x,))
            if fr.readonly:
                fr.sent_while_ro.append('EVENT')
                self.ro_messages.append('EVENT')
            fr.trace.append(('event', list(indexed), list(data)))
            fr.events.append((fr.req.to, list(indexed), list(data)))
        elif msg == W.M_GETBALANCE:
            a = W.unraw(d)
            fr.trace.append(('balance', a))
            self.push(W.M_GETBALANCE, W.int_enc(self.balances.get(a, 0)))
        elif msg == W.M_SETFEEPCT:
            if not isinstance(d, int) or isinstance(d, bool):
                raise W.WireError('bad SETFEEPCT %r' % (d,))
            if fr.readonly:
                fr.sent_while_ro.append('SETFEEPCT')
                self.ro_messages.append('SETFEEPCT')
            fr.fee.append(d)
            fr.trace.append(('fee', d))
        elif msg == W.M_CONTAINS:
            prefix, value, limit = d
            if not isinstance(prefix, bytes) or not isinstance(value, bytes) or not isinstance(limit, int):
                raise W.WireError('bad CONTAINS %r' % (d,))
            yn, cnt, size = self.contains(fr, store, prefix, value, limit)
            fr.trace.append(('contains', prefix, value, limit, yn, cnt, size))
            self.push(W.M_CONTAINS, [yn, cnt, size])
        elif msg == W.M_GETINFO:
            self.push(W.M_GETINFO, W.any_enc({}))
        else:
            self.problem('unexpected message %d' % msg)

    @staticmethod
    def key(k):
        if not isinstance(k, bytes):
            raise W.WireError('bad storage key %r' % (k,))

    def contains(self, fr, store, prefix, value, limit):
        """Go: CallHandler.ArrayDBContains."""
        import hashlib
        h = lambda b: hashlib.sha3_256(b).digest()
        costs = fr.req.costs
        get = costs.get('get', 0)
        base = costs.get('getBase', 0) if costs.get('schema', 0) else 0
        n = store.get(h(prefix))
        n = W.int_dec(n) if n else 0
        cnt = size = cost = 0
        for i in range(n):
            v = store.get(h(prefix + W.rlp(W.int_enc(i))))
            cnt += 1
            cost += base
            if v is not None:
                size += len(v)
                cost += get * len(v)
                if v == value:
                    return True, cnt, size
            if cost > limit:
                break
        return False, cnt, size

    # -- nested calls --------------------------------------------------------------------------------------
    def call(self, fr, d):
        to, value, limit, typ, data = d
        to = W.unraw(to)
        value, limit = W.int_dec(value), W.int_dec(limit)
        data = W.any_dec(data)
        if typ != b'call' or not isinstance(data, dict) or set(data) != {'method', 'params'}:
            raise W.WireError('bad CALL data %r' % (d,))
        info = dict(to=to, value=value, limit=limit, method=data['method'], params=data['params'])
        fr.trace.append(('call', info))
        r = self.on_call(self, fr, info) if self.on_call else None
        if r is not None and r[0] == 'reply':
            _, status, used, res = r
            fr.calls.append((info, status, used, res))
            self.push(W.M_RESULT, [status, W.int_enc(used), W.any_enc(res)])
            return
        if r is not None and r[0] == 'api':
            # the node may ask for an API while a call is in progress (deployment by a contract)
            self.frames.append(Frame(GetApi(r[1]), False, fr.depth + 1, None))
            self.frames[-1].then = (info, r[2])
            self.requests += 1
            self.push(W.M_GETAPI, r[1])
            return
        if not isinstance(info['method'], str):
            return self.reply_call(fr, info, 6, 0, 'InvalidMethod')
        if to in self.contracts:
            c = self.contracts[to]
            if value:
                if fr.readonly:
                    return self.reply_call(fr, info, 9, 0, 'ReadOnly')
                if self.balances.get(fr.req.to, 0) < value:
                    return self.reply_call(fr, info, 11, 0, 'OutOfBalance')
            ro = fr.readonly or info['method'] in c.readonly
            params = info['params']
            if isinstance(params, dict) and info['method'] in c.order:
                pos = list(params.get('.', []))
                params = pos + [params.get(n) for n in c.order[info['method']][len(pos):]]
            req = Invoke(c, info['method'] or 'fallback', params, frm=fr.req.to, value=value,
                         limit=limit, readonly=ro, costs=fr.req.costs, info=fr.req.info)
            if self.nested_hook:
                self.nested_hook(fr, req)
            self.start(req, nested=info)
        else:
            if value:
                if fr.readonly:
                    return self.reply_call(fr, info, 9, 0, 'ReadOnly')
                if self.balances.get(fr.req.to, 0) < value:
                    return self.reply_call(fr, info, 11, 0, 'OutOfBalance')
                self.move(fr.req.to, to, value)
            self.reply_call(fr, info, 0, self.call_cost, None)

    def move(self, a, b, v):
        self.balances[a] = self.balances.get(a, 0) - v
        self.balances[b] = self.balances.get(b, 0) + v

    def reply_call(self, fr, info, status, used, res):
        fr.calls.append((info, status, used, res))
        self.push(W.M_RESULT, [status, W.int_enc(used), W.any_enc(res)])

    def start(self, req, nested=None):
        if isinstance(req, GetApi):
            self.frames.append(Frame(req, False, len(self.frames), None))
            self.requests += 1
            self.push(W.M_GETAPI, req.code)
            return
        saved = ({a: dict(s) for a, s in self.stores.items()}, dict(self.balances))
        fr = Frame(req, req.readonly, len(self.frames), saved)
        fr.nested = nested
        self.frames.append(fr)
        if nested and req.value:
            self.move(req.frm, req.to, req.value)
        i = req.info
        info = {'B.timestamp': i['timestamp'], 'B.height': i['height'], 'T.hash': i['txhash'], 'T.index': i['index'],
                'T.from': i['txfrom'], 'T.timestamp': i['txtimestamp'], 'T.nonce': i['nonce'],
                'Revision': i['revision'], 'StepCosts': dict(req.costs), 'C.owner': req.contract.owner}
        flag = req.flag if req.flag is not None else (W.F_READONLY if req.readonly else 0)
        self.requests += 1
        self.push(W.M_INVOKE, [
            req.code, flag, None if req.frm is None else req.frm.raw, req.to.raw,
            W.int_enc(req.value), W.int_enc(req.limit), req.method,
            req.raw_params if req.raw_params is not None else W.any_enc(req.params), W.any_enc(info), b'', 0, None])
        if not nested:
            self.invoke_len = len(self.out)

    def finish(self, outcome, fr):
        if self.frames:
            parent = self.frames[-1]
            if isinstance(outcome, ApiOutcome):
                info, (status, used, res) = fr.then
                parent.api = outcome
                parent.calls.append((info, status, used, res))
                self.push(W.M_RESULT, [status, W.int_enc(used), W.any_enc(res)])
                return
            parent.calls.append((fr.nested, outcome.status, outcome.used, outcome))
            self.push(W.M_RESULT, [outcome.status, W.int_enc(outcome.used), outcome.raw])
        else:
            self.last = outcome

    # -- node -> engine ------------------------------------------------------------------------------------
    def read(self, n):
        if self.dead is not None:
            self.dead_reads += 1
            if self.dead_reads > 1000:
                raise SystemExit('starved')
            return b''
        if not self.out:
            if self.frames:
                self.problem('engine waits for a message the node does not owe it (request %s)'
                             % describe(self.frames[-1].req))
                return b''
            try:
                self.next_request()
            except Problem as e:
                self.problem(str(e))
                return b''
        k = min(n, len(self.out))
        if self.chunk:
            k = max(1, min(k, self.chunk(len(self.out), n)))
        r = bytes(self.out[:k])
        del self.out[:k]
        self.took(k)
        return r

    def next_request(self):
        if self.closing:
            self.problem('engine keeps reading after CLOSE')
            raise Problem(self.dead)
        last, self.last = self.last, None
        try:
            if self.driver is None:
                self.driver = self.driver_fn(self)
                req = next(self.driver)
            else:
                req = self.driver.send(last)
        except StopIteration:
            self.closing = True
            self.push(W.M_CLOSE, None)
            return
        self.start(req)


def describe(req):
    if isinstance(req, GetApi):
        return 'GETAPI(%s)' % req.code
    return 'INVOKE(to=%s method=%r params=%r limit=%d value=%d ro=%s)' % (
        req.to.text, req.method, req.params, req.limit, req.value, req.readonly)


_ran = []


def fresh():
    """A process runs one engine; a further run in this process starts from freshly imported modules."""
    if _ran:
        keep = (sys.prefix, sys.base_prefix, HERE)
        for n, m in list(sys.modules.items()):
            f = getattr(m, '__file__', None) or ''.join(list(getattr(m, '__path__', ()))[:1])
            if n.split('.')[0] in ('pyexec', 'iconservice') or (f and not f.startswith(keep) and n not in ('__main__', '__mp_main__')):
                del sys.modules[n]
    _ran.append(1)


class C_Sock(socket.socket):
    """Real socket whose connect() is a no-op, so that no frames are added on the engine's stack."""
    def connect(self, address):
        pass


def node_thread(node, sock):
    sock.settimeout(30)
    try:
        while node.dead is None:
            if node.version is not None and not node.frames and not node.out and not node.closing:
                try:
                    node.next_request()
                except Problem as e:
                    node.problem(str(e))
                    break
            if node.out:
                b = bytes(node.out[:node.unread[0] - node.taken])     # message by message, as the node does
                del node.out[:len(b)]
                node.took(len(b))
                sock.sendall(b)
                continue
            b = sock.recv(65536)
            if not b:
                break
            node.feed(b)
    except socket.timeout:
        node.problem('engine and node wait for each other (request %s)' % (describe(node.frames[-1].req) if node.frames else None))
    except OSError as e:
        if not node.closing:
            node.problem('engine closed the connection: %s' % e)
    except BaseException:   # noqa
        node.problem('node: ' + traceback.format_exc())
    finally:
        sock.close()


def run_engine(driver_fn, chunk=None, args=('-u', 'uuid-1', '-s', '/nonexistent/ee.socket'), setup=None, threaded=False):
    """Runs the real engine main() against `driver_fn(node)`; returns the node. Raises Problem on violation."""
    fresh()
    node = Node(driver_fn, chunk)
    if setup:
        setup(node)
    real = socket.socket
    made = []

    th = None
    if threaded:
        import threading
        a_, b_ = socket.socketpair()
        eng = C_Sock(a_.family, a_.type, a_.proto, fileno=a_.detach())
        th = threading.Thread(target=node_thread, args=(node, b_), daemon=True)
        th.start()

    def mk(*a, **k):
        if threaded:
            return eng
        s = FakeSocket(node)
        made.append(s)
        return s
    socket.socket = mk
    argv = sys.argv
    sys.argv = ['pyexec'] + list(args)
    err = None
    try:
        from pyexec import __main__ as em
        em.main()
    except BaseException as e:   # noqa
        err = e
        tb = traceback.format_exc()
    finally:
        socket.socket = real
        sys.argv = argv
        if th:
            eng.close()
            th.join(60)
    if node.driver is not None and err is not None and isinstance(err, Problem):
        raise err
    if node.dead is not None:
        raise Problem(node.dead)
    if err is not None and not node.closing:
        raise Problem('engine terminated by %s: %s\n%s' % (type(err).__name__, err, tb))
    if not node.closing:
        raise Problem('engine returned before being closed')
    if node.requests != node.answers:
        raise Problem('requests=%d answers=%d' % (node.requests, node.answers))
    return node
