from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class Cell:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)
        self.v = v  # type: int

    def inc(self) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == Old(self.v) + 1 and Result() == self.v)
        self.v = self.v + 1
        return self.v

    def test(self, r: bool) -> bool:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == Old(self.v) + 1 and Result() == r)
        self.v = self.v + 1
        return r

    def neg(self) -> bool:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == -Old(self.v) and Result() == (Old(self.v) > 0))
        o = self.v
        self.v = -o
        return o > 0

def pair(a: int, b: int) -> int:
    Ensures(Result() == 100 * a + b)
    return 100 * a + b

def three(a: int, b: int, c: int = 7) -> int:
    Ensures(Result() == 100 * a + 10 * b + c)
    return 100 * a + 10 * b + c


def c0(v: int) -> None:
    c = Cell(v)
    r = c.inc() if c.v > 0 else -1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c.v == v + 1


def c1(v: int) -> None:
    c = Cell(v)
    r = c.neg() if c.v > 0 else c.test(False)
    Assert(Implies(v > 0, r))


def c2(v: int) -> None:
    c = Cell(v)
    r = c.neg() if c.v > 0 else c.test(False)
    Assert(Implies(v > 0, c.v == -v))


def c3(v: int) -> None:
    c = Cell(v)
    r = c.neg() if c.v > 0 else c.test(False)
    Assert(Implies(v <= 0, not r))


def c4(v: int) -> None:
    c = Cell(v)
    r = c.neg() if c.v > 0 else c.test(False)
    Assert(Implies(v <= 0, c.v == v + 1))


def c5(v: int) -> None:
    c = Cell(v)
    r = c.neg() if c.v > 0 else c.test(False)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(v > 0, c.v == v))


def c6(v: int) -> None:
    c = Cell(v)
    r = c.neg() if c.v > 0 else c.test(False)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(v > 0, not r))


def c7(v: int) -> None:
    c = Cell(v)
    r = c.v > 0 and c.neg()
    assert r == (v > 0)


def c8(v: int) -> None:
    c = Cell(v)
    r = c.v > 0 and c.neg()
    Assert(Implies(v > 0, r))


def c9(v: int) -> None:
    c = Cell(v)
    r = c.v > 0 and c.neg()
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(v > 0, not r))


def c10(v: int) -> None:
    c = Cell(v)
    r = c.v > 0 and c.neg()
    Assert(Implies(v > 0, c.v == -v))


def c11(v: int) -> None:
    c = Cell(v)
    r = c.v > 0 and c.neg()
    Assert(Implies(v <= 0, c.v == v))


def c12(v: int) -> None:
    c = Cell(v)
    r = c.v > 0 and c.neg()
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(v <= 0, c.v == -v))


def c13(v: int) -> None:
    c = Cell(v)
    r = c.v > 0 or c.neg()
    Assert(Implies(v > 0, r))


def c14(v: int) -> None:
    c = Cell(v)
    r = c.v > 0 or c.neg()
    Assert(Implies(v > 0, c.v == v))


def c15(v: int) -> None:
    c = Cell(v)
    r = c.v > 0 or c.neg()
    Assert(Implies(v <= 0, c.v == -v))


def c16(v: int) -> None:
    c = Cell(v)
    r = c.v > 0 or c.neg()
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(v < 0, r))


def c17(v: int) -> None:
    c = Cell(v)
    r = c.v > 0 or c.neg()
    Assert(Implies(v < 0, not r))


def c18(v: int, p: bool, q: bool) -> None:
    c = Cell(v)
    r = c.test(p) and c.test(q)
    assert r == (p and q)


def c19(v: int, p: bool, q: bool) -> None:
    c = Cell(v)
    r = c.test(p) and c.test(q)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == (p or q)


def c20(v: int, p: bool, q: bool) -> None:
    c = Cell(v)
    r = c.test(p) and c.test(q)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c.v == v + 2


def c21(v: int, p: bool, q: bool) -> None:
    c = Cell(v)
    r = c.test(p) and c.test(q)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c.v == v + 1


def c22(v: int, p: bool, q: bool) -> None:
    c = Cell(v)
    r = c.test(p) and c.test(q)
    Assert(Implies(p, c.v == v + 2))


def c23(v: int, p: bool, q: bool) -> None:
    c = Cell(v)
    r = c.test(p) and c.test(q)
    Assert(Implies(not p, c.v == v + 1))


def c24(v: int, p: bool, q: bool) -> None:
    c = Cell(v)
    r = c.test(p) or c.test(q) or c.test(p)
    assert r == (p or q)


def c25(v: int, p: bool, q: bool) -> None:
    c = Cell(v)
    r = c.test(p) or c.test(q) or c.test(p)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c.v == v + 1


def c26(v: int, p: bool, q: bool) -> None:
    c = Cell(v)
    r = c.test(p) or c.test(q) or c.test(p)
    Assert(Implies(p, c.v == v + 1))


def c27(v: int, p: bool, q: bool) -> None:
    c = Cell(v)
    r = c.test(p) or c.test(q) or c.test(p)
    Assert(Implies(q and not p, c.v == v + 2))


def c28(v: int, p: bool, q: bool) -> None:
    c = Cell(v)
    r = c.test(p) or c.test(q) or c.test(p)
    Assert(Implies(not p and not q, c.v == v + 3))


def c29(v: int, p: bool, q: bool) -> None:
    c = Cell(v)
    r = c.test(p) or c.test(q) or c.test(p)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(not p and not q, c.v == v + 2))


def c30(v: int, p: bool) -> None:
    c = Cell(v)
    r = not c.test(p)
    assert r != p


def c31(v: int, p: bool) -> None:
    c = Cell(v)
    r = not c.test(p)
    assert c.v == v + 1


def c32(v: int) -> None:
    c = Cell(v)
    r = 0 < c.inc() < c.inc()
    Assert(Implies(v >= 0, c.v == v + 2))


def c33(v: int) -> None:
    c = Cell(v)
    r = 0 < c.inc() < c.inc()
    Assert(Implies(v < 0, c.v == v + 1))


def c34(v: int) -> None:
    c = Cell(v)
    r = 0 < c.inc() < c.inc()
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(v < 0, c.v == v + 2))


def c35(v: int) -> None:
    c = Cell(v)
    r = 0 < c.inc() < c.inc()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c.v == v + 2


def c36(v: int) -> None:
    c = Cell(v)
    r = 0 < c.inc() < c.inc()
    assert r == (v >= 0)


def c37(v: int) -> None:
    c = Cell(v)
    r = c.v < c.inc() < c.v + 1
    assert r
