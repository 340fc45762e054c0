from nagini_contracts.contracts import *


class A:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)
        self.v = v  # type: int

    @Inline
    def first(self, o: 'A') -> int:
        return self.v

    @Inline
    def scaled(self, k: int, d: int = 2) -> int:
        return self.v * k - d

    @Inline
    def twice(self, k: int) -> int:
        t = self.scaled(k)
        return t + self.scaled(d=0, k=1)


def pick(a: A, b: A) -> A:
    Requires(Acc(a.v) and Acc(b.v))
    Ensures(Acc(a.v) and Acc(b.v) and Result() is b)
    Ensures(a.v == Old(a.v))
    Ensures(b.v == Old(b.v) + 1)
    b.v += 1
    return b


def m(a: A, b: A) -> None:
    Requires(Acc(a.v) and Acc(b.v))
    x = a.first(b)
    assert x == a.v
    y = b.scaled(3)
    assert y == b.v * 3 - 2
    z = a.scaled(d=1, k=2)
    assert z == a.v * 2 - 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a.first(b) == b.v


def order(a: A, b: A) -> None:
    Requires(Acc(a.v) and Acc(b.v) and b.v == 4)
    x = pick(a, b).scaled(10, d=b.v)
    assert x == 45
    y = a.twice(5)
    assert y == 6 * a.v - 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert y == 6 * a.v
