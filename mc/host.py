"""Generic contract whose methods run closures of the harness ("programs")."""
import sys
import types

HOST_SRC = '''
import mchost
from iconservice import IconScoreBase, external, payable, eventlog, Address

class Score(IconScoreBase):
    @eventlog(indexed=1)
    def Ev(self, a: int, b: str): pass
    @eventlog(indexed=0)
    def Ev0(self): pass
    def __init__(self, db):
        super().__init__(db)
        self.__dict__['_mc_db'] = db
        mchost.on_init(self, db)
    def on_install(self, i: int) -> None:
        return mchost.run(self, i, 'on_install')
    def on_update(self, i: int) -> None:
        return mchost.run(self, i, 'on_update')
    @external
    def run(self, i: int):
        return mchost.run(self, i, 'run')
    @external(readonly=True)
    def view(self, i: int) -> int:
        return mchost.run(self, i, 'view')
    @payable
    @external
    def pay(self, i: int):
        return mchost.run(self, i, 'pay')
    @payable
    def fallback(self):
        return mchost.run(self, -1, 'fallback')
'''


def install():
    """(Re)creates the module the SCORE source imports; returns it."""
    m = types.ModuleType('mchost')
    m.programs = {}
    m.inits = []
    m.errors = []

    def on_init(score, db):
        h = m.init_hook
        if h:
            h(score, db)

    def run(score, i, method):
        p = m.programs[i]
        return p(score)
    m.init_hook = None
    m.on_init = on_init
    m.run = run
    sys.modules['mchost'] = m
    return m
