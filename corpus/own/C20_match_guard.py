from nagini_contracts.contracts import *
from typing import Union, Optional


class C:
    def __init__(self, f: int) -> None:
        Ensures(Acc(self.f) and self.f == f)
        self.f = f  # type: int


def m_guard(c: C) -> None:
    Requires(Acc(c.f))
    y = 0
    match c:
        case C(f=y) if y > 0:
            assert y == c.f and y > 0
        case _:
            #:: ExpectedOutput(assert.failed:assertion.false)
            assert c.f > 0


def m_guard2(c: C) -> None:
    Requires(Acc(c.f))
    y = 0
    match c:
        case C(f=y) if y > 0:
            #:: ExpectedOutput(assert.failed:assertion.false)
            assert False
        case _:
            assert c.f <= 0 and y == c.f


def m_guard3(v: int) -> None:
    y = 0
    match v:
        case y if y > 5:
            assert y == v and y > 5
        case _:
            assert y == v
            #:: ExpectedOutput(assert.failed:assertion.false)
            assert y == 0


@Pure
def p_guard(v: int) -> int:
    Ensures(Implies(v > 5, Result() == v + 1))
    Ensures(Implies(v <= 5, Result() == v))
    y = 0
    match v:
        case y if y > 5:
            return y + 1
        case _:
            return y


@Pure
def p_guard_wrong(v: int) -> int:
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(v <= 5, Result() == 0))
    y = 0
    match v:
        case y if y > 5:
            return y + 1
        case _:
            return y


@Pure
def p_guard_chain(v: int) -> int:
    Ensures(Result() == (10 if v > 10 else (5 if v > 5 else (v if v == 1 else 0))))
    match v:
        case a if a > 10:
            return 10
        case 1 as b:
            return b
        case c if c > 5 and c > 4:
            return 5
        case _:
            return 0


def m_guard_chain(v: int) -> int:
    Ensures(Result() == (10 if v > 10 else (5 if v > 5 else (v if v == 1 else 0))))
    match v:
        case a if a > 10:
            return 10
        case 1 as b:
            return b
        case c if c > 5 and c > 4:
            return 5
        case _:
            pass
    return 0
