from nagini_contracts.contracts import *
from typing import List, Dict


class C:
    def __init__(self) -> None:
        self.n = 0  # type: int
        Ensures(Acc(self.n))


def f() -> None:
    a = [1, 2]
    a[1], x = a
    assert x == 2
    assert a[1] == 1


def g() -> None:
    a = [1, 2, 3]
    a[1], *x = a
    assert len(x) == 2
    assert x[0] == 2


def h() -> None:
    a = [1, 2, 3, 4]
    b, a[3], *x = a
    assert len(x) == 2
    assert x[0] == 3
    assert x[1] == 4
    assert a[3] == 2


def k() -> None:
    a = [1, 2]
    c = C()
    c.n, x = a
    assert c.n == 1
    assert x == 2


def i(t: int) -> None:
    a = [1, 2]
    #:: ExpectedOutput(call.precondition:assertion.false)
    a[t], x = a


def bad() -> None:
    a = [1, 2]
    a[1], x = a
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x == 1


def bad_starred() -> None:
    a = [1, 2, 3]
    a[1], *x = a
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x[0] == 1
