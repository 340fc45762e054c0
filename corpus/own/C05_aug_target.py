from nagini_contracts.contracts import *
from typing import List


class C:
    def __init__(self) -> None:
        self.i = 0  # type: int
        Ensures(Acc(self.i) and self.i == 0)

    def step(self) -> int:
        Requires(Acc(self.i))
        Ensures(Acc(self.i) and self.i == Old(self.i) + 1)
        Ensures(Result() == 10)
        self.i = self.i + 1
        return 10


def f() -> None:
    c = C()
    a = [1, 2, 3]
    a[c.i] += c.step()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a[1] == 11


def f2() -> None:
    c = C()
    a = [1, 2, 3]
    a[c.i] += c.step()
    assert a[0] == 11
    assert a[1] == 2
