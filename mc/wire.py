"""Reference encoder/decoder of the node <-> engine protocol values.

Written from the Go side (service/eeproxy, common/codec TypedObj, common/intconv), independently of pyexec:
it is the oracle for what bytes must be on the wire.
"""

NIL, DICT, LIST, BYTES, STRING, BOOL, ADDRESS, INT = 0, 1, 2, 3, 4, 5, 10, 11

(M_VERSION, M_INVOKE, M_RESULT, M_GETVALUE, M_SETVALUE, M_CALL, M_EVENT, M_GETINFO, M_GETBALANCE, M_GETAPI, M_LOG,
 M_CLOSE) = range(12)
M_SETFEEPCT, M_CONTAINS = 15, 16

F_READONLY, F_TRACE = 1, 2
SV_DELETE, SV_OLDVALUE = 1, 2


class WireError(Exception):
    pass


class Addr(tuple):
    """Harness-side address: (kind, body)."""
    __slots__ = ()

    def __new__(cls, kind, body):
        assert kind in (0, 1) and isinstance(body, bytes) and len(body) == 20
        return tuple.__new__(cls, (kind, body))

    @property
    def raw(self):
        return bytes([self[0]]) + self[1]

    @property
    def text(self):
        return ('hx', 'cx')[self[0]] + self[1].hex()

    def __repr__(self):
        return 'Addr(%s)' % self.text


def addr(kind, n):
    return Addr(kind, n.to_bytes(20, 'big'))


def unraw(b):
    if not isinstance(b, bytes) or len(b) != 21 or b[0] not in (0, 1):
        raise WireError('bad address bytes %r' % (b,))
    return Addr(b[0], b[1:])


def int_enc(v):
    """Minimal big-endian two's complement (Go common/intconv.BigIntToBytes)."""
    n = 1
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)):
        n += 1
    return (v % (1 << (8 * n))).to_bytes(n, 'big')


def int_dec(b, strict=True):
    if not isinstance(b, bytes) or len(b) == 0:
        raise WireError('bad int bytes %r' % (b,))
    v = int.from_bytes(b, 'big')
    if b[0] & 0x80:
        v -= 1 << (8 * len(b))
    if strict and int_enc(v) != b:
        raise WireError('integer not minimally encoded: %s' % b.hex())
    return v


def any_enc(o):
    """Value -> TypedObj as msgpack-able list."""
    if o is None:
        return [NIL, None]
    if isinstance(o, Addr):
        return [ADDRESS, o.raw]
    if isinstance(o, bool):
        return [BOOL, b'\x01' if o else b'\x00']
    if isinstance(o, int):
        return [INT, int_enc(o)]
    if isinstance(o, bytes):
        return [BYTES, o]
    if isinstance(o, str):
        return [STRING, o.encode('utf-8')]
    if isinstance(o, (list, tuple)):
        return [LIST, [any_enc(x) for x in o]]
    if isinstance(o, dict):
        return [DICT, {k: any_enc(v) for k, v in o.items()}]
    raise TypeError(type(o))


def any_dec(x):
    """TypedObj -> value; raises WireError for anything Go could not decode."""
    if not isinstance(x, (list, tuple)) or len(x) != 2:
        raise WireError('bad typed object %r' % (x,))
    t, v = x
    if t == NIL:
        if v is not None:
            raise WireError('nil with value')
        return None
    if t == DICT:
        if not isinstance(v, dict):
            raise WireError('dict expected')
        r = {}
        for k, e in v.items():
            if isinstance(k, bytes):
                k = k.decode('utf-8')
            if not isinstance(k, str):
                raise WireError('bad key %r' % (k,))
            r[k] = any_dec(e)
        return r
    if t == LIST:
        if not isinstance(v, (list, tuple)):
            raise WireError('list expected')
        return [any_dec(e) for e in v]
    if not isinstance(v, bytes):
        raise WireError('bytes expected for tag %r: %r' % (t, v))
    if t == BYTES:
        return v
    if t == STRING:
        return v.decode('utf-8')
    if t == BOOL:
        if v not in (b'\x00', b'\x01'):
            raise WireError('bad bool %r' % v)
        return v == b'\x01'
    if t == INT:
        return int_dec(v)
    if t == ADDRESS:
        return unraw(v)
    raise WireError('unknown tag %r' % (t,))


def same(a, b):
    """Equality including types (True is not 1)."""
    if type(a) is not type(b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) \
                and not isinstance(a, Addr) and not isinstance(b, Addr):
            pass
        else:
            return False
    if isinstance(a, Addr):
        return a == b
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def rlp(b):
    """RLP encoding of a byte string (any length), from the RLP definition."""
    n = len(b)
    if n == 1 and b[0] <= 0x7f:
        return b
    if n < 56:
        return bytes([0x80 + n]) + b
    ln = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([0xb7 + len(ln)]) + ln + b
