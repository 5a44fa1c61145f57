"""Helpers shared by checks: host contracts, running programs, converting values."""
import itertools
import os
import pickle

from . import host, wire as W
from .node import Contract, Invoke, run_engine, Problem

A1, A2, A3 = W.addr(1, 0xc1), W.addr(1, 0xc2), W.addr(1, 0xc3)
EOA1, EOA2 = W.addr(0, 0xe1), W.addr(0, 0xe2)

# documented status codes (Go: module.Status)
ST = dict(OK=0, SYSTEM=1, NOTFOUND=2, METHOD=3, NOTPAYABLE=4, FORMAT=5, PARAM=6, INSTANCE=7, CONTAINER=8, DENIED=9,
          OOS=10, REVERT=32)


def to_py(v):
    """Harness value -> value as contract code sees it."""
    if isinstance(v, W.Addr):
        from iconservice import Address, AddressPrefix
        return Address(AddressPrefix(v[0]), v[1])
    if isinstance(v, list):
        return [to_py(x) for x in v]
    if isinstance(v, dict):
        return {k: to_py(x) for k, x in v.items()}
    return v


def from_py(v):
    """Value in contract code -> harness value (addresses become Addr)."""
    from iconservice import Address
    if isinstance(v, Address):
        return W.Addr(int(v.prefix), bytes(v.body))
    if isinstance(v, list):
        return [from_py(x) for x in v]
    if isinstance(v, tuple):
        return [from_py(x) for x in v]
    if isinstance(v, dict):
        return {k: from_py(x) for k, x in v.items()}
    return v


def code_of(e):
    """Documented failure code of an exception as the contract sees it; 1 for foreign exceptions."""
    c = getattr(e, 'code', None)
    if c is not None:
        return int(c)
    return 1


def attempt(fn, *a, **k):
    try:
        return ('ok', from_py(fn(*a, **k)))
    except BaseException as e:   # noqa
        return ('err', code_of(e))


class Host:
    """A node with host contracts at A1.. whose methods run programs."""

    def __init__(self, ctx, addrs=(A1, A2, A3), readonly=('view',)):
        self.ctx = ctx
        self.h = host.install()
        self.code = ctx.scores.make(host.HOST_SRC)
        self.contracts = {a: Contract(a, self.code, readonly=readonly) for a in addrs}

    def setup(self, node):
        node.contracts = dict(self.contracts)

    def prog(self, i, fn):
        self.h.programs[i] = fn

    def inv(self, fn, at=A1, method='run', i=0, **k):
        self.h.programs[i] = fn
        return Invoke(self.contracts[at], method, [i], **k)


def seqs(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(alphabet, repeat=n)


def forked(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            m = ('ok', fn())
        except Problem as e:
            m = ('problem', str(e))
        except BaseException as e:   # noqa
            import traceback
            m = ('error', traceback.format_exc())
        with os.fdopen(w, 'wb') as f:
            pickle.dump(m, f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    os.waitpid(pid, 0)
    if not b:
        raise Problem('engine process died')
    k, v = pickle.loads(b)
    if k == 'problem':
        raise Problem(v)
    if k == 'error':
        raise RuntimeError(v)
    return v
