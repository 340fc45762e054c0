from nagini_contracts.contracts import *
from nagini_contracts.adt import ADT
from typing import NamedTuple, cast


class Wrap(ADT):
    pass


class W(Wrap, NamedTuple('W', [('s', str)])):
    pass


class Nil(Wrap, NamedTuple('Nil', [])):
    pass


def f(o: object) -> None:
    Requires(not isinstance(o, str) or W(o).s == 'a')
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(o, str)


def h(o: object) -> None:
    Requires(isinstance(o, int))
    Assert(not isinstance(o, str) or W(o).s == W(o).s)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert False


def h2(o: object) -> None:
    Requires(isinstance(o, int))
    b = isinstance(o, str) and W(o).s == 'a'
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert False
