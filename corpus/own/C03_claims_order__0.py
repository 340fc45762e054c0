from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class Cell:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)
        self.v = v  # type: int

    def inc(self) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == Old(self.v) + 1 and Result() == self.v)
        self.v = self.v + 1
        return self.v

    def test(self, r: bool) -> bool:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == Old(self.v) + 1 and Result() == r)
        self.v = self.v + 1
        return r

    def neg(self) -> bool:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == -Old(self.v) and Result() == (Old(self.v) > 0))
        o = self.v
        self.v = -o
        return o > 0

def pair(a: int, b: int) -> int:
    Ensures(Result() == 100 * a + b)
    return 100 * a + b

def three(a: int, b: int, c: int = 7) -> int:
    Ensures(Result() == 100 * a + 10 * b + c)
    return 100 * a + 10 * b + c


def c0(v: int) -> None:
    c = Cell(v)
    r = c.v + c.inc()
    assert r == 2 * v + 1


def c1(v: int) -> None:
    c = Cell(v)
    r = c.v + c.inc()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 2 * v + 2


def c2(v: int) -> None:
    c = Cell(v)
    r = c.inc() + c.v
    assert r == 2 * v + 2


def c3(v: int) -> None:
    c = Cell(v)
    r = c.inc() + c.v
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 2 * v + 1


def c4(v: int) -> None:
    c = Cell(v)
    r = c.v - (c.inc() - c.v)
    assert r == v


def c5(v: int) -> None:
    c = Cell(v)
    r = c.v - (c.inc() - c.v)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == v + 1


def c6(v: int) -> None:
    c = Cell(v)
    r = c.v < c.inc()
    assert r


def c7(v: int) -> None:
    c = Cell(v)
    r = c.v < c.inc()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert not r


def c8(v: int) -> None:
    c = Cell(v)
    r = c.v == c.inc()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r


def c9(v: int) -> None:
    c = Cell(v)
    r = c.v == c.inc()
    assert not r


def c10(v: int) -> None:
    c = Cell(v)
    r = pair(c.v, c.inc())
    assert r == 101 * v + 1


def c11(v: int) -> None:
    c = Cell(v)
    r = pair(c.v, c.inc())
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 101 * v + 101


def c12(v: int) -> None:
    c = Cell(v)
    r = pair(c.inc(), c.v)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 101 * v + 1


def c13(v: int) -> None:
    c = Cell(v)
    r = pair(c.inc(), c.v)
    assert r == 101 * v + 101


def c14(v: int) -> None:
    c = Cell(v)
    r = three(c.v, c=c.inc(), b=c.v)
    assert r == 111 * v + 11


def c15(v: int) -> None:
    c = Cell(v)
    r = three(c.v, c=c.inc(), b=c.v)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 111 * v + 1


def c16(v: int) -> None:
    c = Cell(v)
    r = three(c.v, c=c.inc(), b=c.v)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 111 * v + 111


def c17(v: int) -> None:
    c = Cell(v)
    r = [c.v, c.inc(), c.v]
    assert r[0] == v


def c18(v: int) -> None:
    c = Cell(v)
    r = [c.v, c.inc(), c.v]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r[0] == v + 1


def c19(v: int) -> None:
    c = Cell(v)
    r = [c.v, c.inc(), c.v]
    assert r[2] == v + 1


def c20(v: int) -> None:
    c = Cell(v)
    r = (c.v, c.inc(), c.v)
    assert r[0] == v


def c21(v: int) -> None:
    c = Cell(v)
    r = (c.v, c.inc(), c.v)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r[0] == v + 1


def c22(v: int) -> None:
    c = Cell(v)
    r = (c.v, c.inc(), c.v)
    assert r[2] == v + 1


def c23(v: int) -> None:
    c = Cell(v)
    r = {c.v: c.inc()}
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (v + 1) in r


def c24(v: int) -> None:
    c = Cell(v)
    r = {c.v, c.inc()}
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert v not in r


def c25(v: int) -> None:
    c = Cell(v)
    c.v += c.inc()
    assert c.v == 2 * v + 1


def c26(v: int) -> None:
    c = Cell(v)
    c.v += c.inc()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c.v == 2 * v + 2


def c27(v: int) -> None:
    c = Cell(v)
    c.v = c.inc() + c.v
    assert c.v == 2 * v + 2


def c28(v: int) -> None:
    c = Cell(v)
    c.v = c.inc() + c.v
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c.v == 2 * v + 1


def c29(v: int) -> None:
    c = Cell(v)
    xs = [0, 0, 0]
    xs[0] += c.inc()
    assert xs[0] == v + 1


def c30(v: int) -> None:
    c = Cell(v)
    xs = [0, 0, 0]
    xs[0] += c.inc()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[0] == v


def c31(v: int) -> None:
    c = Cell(v)
    r = c.inc() if c.v > 0 else -1
    Assert(Implies(v > 0, r == v + 1))


def c32(v: int) -> None:
    c = Cell(v)
    r = c.inc() if c.v > 0 else -1
    Assert(Implies(v <= 0, r == -1))


def c33(v: int) -> None:
    c = Cell(v)
    r = c.inc() if c.v > 0 else -1
    Assert(Implies(v <= 0, c.v == v))


def c34(v: int) -> None:
    c = Cell(v)
    r = c.inc() if c.v > 0 else -1
    Assert(Implies(v > 0, c.v == v + 1))
