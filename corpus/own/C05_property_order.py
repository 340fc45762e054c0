from nagini_contracts.contracts import *


class C:
    def __init__(self) -> None:
        self.n = 0  # type: int
        Ensures(Acc(self.n) and self.n == 0)

    @property
    def p(self) -> int:
        Requires(Acc(self.n))
        return self.n

    @p.setter
    def p(self, v: int) -> None:
        Requires(Acc(self.n))
        Ensures(Acc(self.n) and self.n == v)
        self.n = v

    def mk(self) -> 'C':
        Requires(Acc(self.n))
        Ensures(Acc(self.n) and self.n == 5 and Result() is self)
        self.n = 5
        return self


def f() -> None:
    c = C()
    c.mk().p = c.n
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c.p == 5


def g() -> None:
    c = C()
    c.mk().p = c.n
    assert c.n == 0


def h() -> None:
    c = C()
    c.p += c.mk().n
    assert c.n == 5


class D:
    def __init__(self, c: C) -> None:
        self.c = c  # type: C
        Ensures(Acc(self.c) and self.c is c)

    def sw(self, c: C) -> int:
        Requires(Acc(self.c))
        Ensures(Acc(self.c) and self.c is c)
        Ensures(Result() == 5)
        self.c = c
        return 5


def k() -> None:
    c = C()
    e = C()
    d = D(c)
    d.c.p += d.sw(e)
    assert c.p == 5
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert e.p == 5
