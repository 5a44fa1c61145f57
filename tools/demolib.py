"""Runs the real engine of ./pyee against a small node for a demonstration."""
import atexit
import json
import os
import shutil
import sys
import tempfile

D = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [D, os.path.join(os.getcwd(), 'pyee')]
from mc import wire as W                    # noqa
from mc.common import *                     # noqa
from mc.common import Host, A1, A2, A3, EOA1, to_py, from_py, attempt, forked   # noqa
from mc.node import run_engine, Invoke, GetApi, Contract, Problem               # noqa

TMP = tempfile.mkdtemp()
atexit.register(shutil.rmtree, TMP, True)


class Scores:
    n = 0
    root = TMP

    def make(self, source, name=None, files=None, package=None, main_module='main', main_score='Score'):
        self.n += 1
        d = os.path.join(TMP, name or 'score%d' % self.n)
        os.makedirs(d, exist_ok=True)
        files = dict(files or {})
        if source is not None:
            files[main_module + '.py'] = source
        files.setdefault('package.json', json.dumps(package or {'version': '0.0.1', 'main_module': main_module, 'main_score': main_score}))
        for f, t in files.items():
            p = os.path.join(d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as h:
                h.write(t)
        return d


class Ctx:
    scores = Scores()

    def case(self, *a):
        pass


ctx = Ctx()


def play(driver, host=None, args=None, chunk=None):
    kw = {}
    if args:
        kw['args'] = args
    try:
        return run_engine(driver, setup=host.setup if host else None, chunk=chunk, **kw)
    except Problem as e:
        bad('engine: %s' % e)


def bad(text):
    print('BROKEN:', text)
    sys.stdout.flush()
    shutil.rmtree(TMP, True)
    os._exit(1)


def expect(got, want, what):
    if got != want or type(got) is not type(want):
        bad('%s: %r instead of %r' % (what, got, want))
