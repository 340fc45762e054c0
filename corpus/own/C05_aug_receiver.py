from nagini_contracts.contracts import *
from typing import List


class D:
    def __init__(self, n: int) -> None:
        self.n = n  # type: int
        Ensures(Acc(self.n) and self.n == n)


class C:
    def __init__(self, d: D) -> None:
        self.d = d  # type: D
        Ensures(Acc(self.d) and self.d is d)

    def swap(self, e: D) -> int:
        Requires(Acc(self.d))
        Ensures(Acc(self.d) and self.d is e)
        Ensures(Result() == 10)
        self.d = e
        return 10


def f() -> None:
    d = D(1)
    e = D(2)
    c = C(d)
    c.d.n += c.swap(e)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert e.n == 11


def f2() -> None:
    d = D(1)
    e = D(2)
    c = C(d)
    c.d.n += c.swap(e)
    assert d.n == 11
    assert e.n == 2
