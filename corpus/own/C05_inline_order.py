from nagini_contracts.contracts import *


class MyE(Exception):
    pass


def caller() -> None:
    r1 = m_try(True)
    r2 = m_try(False)
    Assert(r1 == 1 and r2 == 0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(r1 == 0)


def raiser(b: bool) -> None:
    Ensures(not b)
    Exsures(MyE, b)
    if b:
        raise MyE()


@Inline
def m_try(b: bool) -> int:
    w = 0
    try:
        raiser(b)
    except MyE as e:
        w = 1
    return w


class Base:
    def get(self, b: bool) -> int:
        Ensures(Result() >= 0)
        r = 0
        try:
            raiser(b)
        except MyE:
            r = 1
        return r


class Sub(Base):
    def get(self, b: bool) -> int:
        Ensures(Result() >= 0)
        x = super().get(True)
        y = super().get(False)
        Assert(x == 1)
        Assert(y == 0)
        return x + y


def loop(n: int) -> int:
    Requires(n > 0)
    Ensures(Result() >= 0)
    i = 0
    s = 0
    while i < n:
        Invariant(0 <= i and i <= n and s == 0)
        s += m_try(False)
        if i == 5:
            m_try(True)
        i += 1
    return s
