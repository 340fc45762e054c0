from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class Cell:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)
        self.v = v  # type: int

    def inc(self) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == Old(self.v) + 1 and Result() == self.v)
        self.v = self.v + 1
        return self.v

    def test(self, r: bool) -> bool:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == Old(self.v) + 1 and Result() == r)
        self.v = self.v + 1
        return r

    def neg(self) -> bool:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == -Old(self.v) and Result() == (Old(self.v) > 0))
        o = self.v
        self.v = -o
        return o > 0

def pair(a: int, b: int) -> int:
    Ensures(Result() == 100 * a + b)
    return 100 * a + b

def three(a: int, b: int, c: int = 7) -> int:
    Ensures(Result() == 100 * a + 10 * b + c)
    return 100 * a + 10 * b + c


def c0(v: int) -> None:
    *b, d = v, 2, 3
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert d == v


def c1(v: int) -> None:
    *b, d = v, 2, 3
    assert len(b) == 2


def c2(v: int) -> None:
    *b, d = v, 2, 3
    assert b[0] == v


def c3(v: int) -> None:
    c = Cell(v)
    d = c
    d.v = 4
    assert c.v == 4


def c4(v: int) -> None:
    c = Cell(v)
    d = c
    d.v = 4
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c.v == v


def c5(v: int) -> None:
    c = Cell(v)
    d = c
    d.v = 4
    c = Cell(v)
    assert c is not d


def c6(v: int) -> None:
    c = Cell(v)
    d = c
    d.v = 4
    c = Cell(v)
    assert d.v == 4


def c7(v: int) -> None:
    c = Cell(v)
    d = c
    d.v = 4
    c = Cell(v)
    assert c.v == v


def c8(v: int) -> None:
    c = Cell(v)
    x = c.inc() * 10 + c.inc()
    assert x == 11 * v + 12


def c9(v: int) -> None:
    c = Cell(v)
    x = c.inc() * 10 + c.inc()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x == 11 * v + 21


def c10(v: int) -> None:
    c = Cell(v)
    x = -c.inc()
    assert x == -v - 1


def c11(v: int) -> None:
    c = Cell(v)
    x = -c.inc()
    assert c.v == v + 1


def c12(v: int) -> None:
    c = Cell(v)
    x = c.v * (c.v + c.inc())
    assert c.v == v + 1


def c13(v: int) -> None:
    c = Cell(v)
    x = c.v * (c.v + c.inc())
    Assert(Implies(v == 1, x == 3))


def c14(v: int) -> None:
    c = Cell(v)
    x = c.v * (c.v + c.inc())
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(v == 1, x == 6))


def c15(v: int) -> None:
    c = Cell(v)
    x = c.v * (c.v + c.inc())
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(v == 1, x == 4))


def c16(v: int) -> None:
    x = 1
    if v > 0: x = 2
    assert x == (2 if v > 0 else 1)


def c17(v: int) -> None:
    x = 1
    if v > 0: x = 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x == 2


def c18(v: int) -> None:
    x = 1
    if v > 0: x = 2
    x += 1 if v > 5 else 10
    Assert(Implies(v > 5, x == 3))


def c19(v: int) -> None:
    x = 1
    if v > 0: x = 2
    x += 1 if v > 5 else 10
    Assert(Implies(v <= 0, x == 11))


def c20(v: int) -> None:
    x = 1
    if v > 0: x = 2
    x += 1 if v > 5 else 10
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x == 3


def c21(v: int) -> None:
    x = (5 if v > 0 else 6) if v > -3 else 7
    Assert(Implies(v > 0, x == 5))


def c22(v: int) -> None:
    x = (5 if v > 0 else 6) if v > -3 else 7
    Assert(Implies(v <= 0 and v > -3, x == 6))


def c23(v: int) -> None:
    x = (5 if v > 0 else 6) if v > -3 else 7
    Assert(Implies(v <= -3, x == 7))


def c24(v: int) -> None:
    x = (5 if v > 0 else 6) if v > -3 else 7
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x != 7


def c25(v: int) -> None:
    x = v or 4
    Assert(Implies(v == 0, x == 4))


def c26(v: int) -> None:
    x = v or 4
    Assert(Implies(v != 0, x == v))


def c27(v: int) -> None:
    x = v or 4
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x == v


def c28(v: int) -> None:
    x = v or 4
    y = v and 4
    Assert(Implies(v == 0, y == 0))


def c29(v: int) -> None:
    x = v or 4
    y = v and 4
    Assert(Implies(v != 0, y == 4))


def c30(v: int) -> None:
    x = v or 4
    y = v and 4
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert y == 4


def c31(v: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    y = 1 if v > 0 else 1 // (v - v)


def c32(v: int) -> None:
    y = 1 if v == v else 1 // (v - v)


def c33(v: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    assert v != 3 or 1 // (v - 3) == 0


def c34(v: int) -> None:
    assert v == 3 or 1 // (v - 3) <= 1


def c35(v: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    assert v == 3 or 1 // (v - 4) <= 1
