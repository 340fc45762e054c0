from nagini_contracts.contracts import *


class MyE(Exception):
    pass


def raiser(b: bool) -> None:
    Ensures(not b)
    Exsures(MyE, b)
    if b:
        raise MyE()


@Inline
def m_try(b: bool) -> int:
    w = 0
    try:
        raiser(b)
    except MyE as e:
        w = 1
    return w


def twice() -> None:
    r1 = m_try(True)
    r2 = m_try(False)
    Assert(r1 == 1)
    Assert(r2 == 0)


def twice_bad() -> None:
    r1 = m_try(True)
    r2 = m_try(False)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(False)


class Val:
    def __init__(self) -> None:
        self.v = 0  # type: int
        Ensures(Acc(self.v) and self.v == 0)


def wrong_copy() -> None:
    r1 = m_try(True)
    r2 = m_try(False)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(r1 == 0)


def wrong_copy2() -> None:
    r1 = m_try(True)
    r2 = m_try(False)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(r2 == 1)


@Inline
def m_nested(b: bool, c: bool) -> int:
    r = 0
    try:
        try:
            raiser(b)
            r += 1
        finally:
            r += 10
            raiser(c)
    except MyE as e:
        r += 100
    return r


def nested() -> None:
    a = m_nested(False, False)
    b = m_nested(True, False)
    c = m_nested(False, True)
    d = m_nested(True, True)
    Assert(a == 11 and b == 110 and c == 111 and d == 110)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(a == 111 or b == 11 or c == 11 or d == 11)
