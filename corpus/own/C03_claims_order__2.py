from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class Cell:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)
        self.v = v  # type: int

    def inc(self) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == Old(self.v) + 1 and Result() == self.v)
        self.v = self.v + 1
        return self.v

    def test(self, r: bool) -> bool:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == Old(self.v) + 1 and Result() == r)
        self.v = self.v + 1
        return r

    def neg(self) -> bool:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == -Old(self.v) and Result() == (Old(self.v) > 0))
        o = self.v
        self.v = -o
        return o > 0

def pair(a: int, b: int) -> int:
    Ensures(Result() == 100 * a + b)
    return 100 * a + b

def three(a: int, b: int, c: int = 7) -> int:
    Ensures(Result() == 100 * a + 10 * b + c)
    return 100 * a + 10 * b + c


def c0(v: int) -> None:
    c = Cell(v)
    r = c.v < c.inc() < c.v + 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert not r


def c1(v: int) -> None:
    x = v
    y = 5
    x, y = y, x
    assert x == 5 and y == v


def c2(v: int) -> None:
    x = v
    y = 5
    x, y = y, x
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x == y


def c3(v: int) -> None:
    x = v
    y = 5
    x, y = y, x
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert y == 5


def c4(v: int) -> None:
    x = v
    x = y = x + 1
    assert x == v + 1


def c5(v: int) -> None:
    x = v
    x = y = x + 1
    assert y == v + 1


def c6(v: int) -> None:
    x = v
    x = y = x + 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert y == v + 2


def c7(v: int) -> None:
    c = Cell(v)
    c.v, x = 3, c.v
    assert c.v == 3


def c8(v: int) -> None:
    c = Cell(v)
    c.v, x = 3, c.v
    assert x == v


def c9(v: int) -> None:
    c = Cell(v)
    c.v, x = 3, c.v
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x == 3


def c10(v: int) -> None:
    c = Cell(v)
    x = c.v = c.v + 1
    assert x == v + 1


def c11(v: int) -> None:
    c = Cell(v)
    x = c.v = c.v + 1
    assert c.v == v + 1


def c12(v: int) -> None:
    c = Cell(v)
    x = c.v = c.v + 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c.v == v + 2


def c13(v: int) -> None:
    xs = [v, v + 1, v + 2]
    i = 0
    i, xs[i] = 1, 9
    assert xs[1] == 9


def c14(v: int) -> None:
    xs = [v, v + 1, v + 2]
    i = 0
    i, xs[i] = 1, 9
    assert xs[0] == v


def c15(v: int) -> None:
    xs = [v, v + 1, v + 2]
    i = 0
    i, xs[i] = 1, 9
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[0] == 9


def c16(v: int) -> None:
    xs = [v, v + 1]
    xs[0], xs[1] = xs[1], xs[0]
    assert xs[0] == v + 1


def c17(v: int) -> None:
    xs = [v, v + 1]
    xs[0], xs[1] = xs[1], xs[0]
    assert xs[1] == v


def c18(v: int) -> None:
    xs = [v, v + 1]
    xs[0], xs[1] = xs[1], xs[0]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[1] == v + 1


def c19(v: int) -> None:
    c = Cell(v)
    d = Cell(v + 10)
    c.v, d.v = d.v, c.v
    assert c.v == v + 10


def c20(v: int) -> None:
    c = Cell(v)
    d = Cell(v + 10)
    c.v, d.v = d.v, c.v
    assert d.v == v


def c21(v: int) -> None:
    c = Cell(v)
    d = Cell(v + 10)
    c.v, d.v = d.v, c.v
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert d.v == v + 10


def c22(v: int) -> None:
    (a, b), e = (v, v + 1), v + 2
    assert a == v


def c23(v: int) -> None:
    (a, b), e = (v, v + 1), v + 2
    assert b == v + 1


def c24(v: int) -> None:
    (a, b), e = (v, v + 1), v + 2
    assert e == v + 2


def c25(v: int) -> None:
    (a, b), e = (v, v + 1), v + 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a == e


def c26(v: int) -> None:
    a, *b = v, 2, 3
    assert a == v


def c27(v: int) -> None:
    a, *b = v, 2, 3
    assert b[0] == 2


def c28(v: int) -> None:
    a, *b = v, 2, 3
    assert b[1] == 3


def c29(v: int) -> None:
    a, *b = v, 2, 3
    assert len(b) == 2


def c30(v: int) -> None:
    a, *b = v, 2, 3
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(b) == 3


def c31(v: int) -> None:
    a, *b, d = v, 2, 3, 4
    assert a == v


def c32(v: int) -> None:
    a, *b, d = v, 2, 3, 4
    assert b[0] == 2


def c33(v: int) -> None:
    a, *b, d = v, 2, 3, 4
    assert len(b) == 2


def c34(v: int) -> None:
    a, *b, d = v, 2, 3, 4
    assert b[1] == 3
