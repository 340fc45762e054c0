from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class Cell:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)  # type: ignore
        Ensures(Acc(self.nxt) and self.nxt is None)  # type: ignore
        self.v = v
        self.nxt = None  # type: Optional[Cell]
    def bump(self) -> None:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == Old(self.v) + 1)
        self.v += 1
    def peek(self) -> int:
        Requires(Acc(self.v, 1/4))
        Ensures(Acc(self.v, 1/4) and Result() == self.v)
        return self.v
    def eat(self) -> None:
        Requires(Acc(self.v))
        self.v = 0
    def eat_half(self) -> None:
        Requires(Acc(self.v, 1/2))
    def havoc(self) -> None:
        Requires(Acc(self.v))
        Ensures(Acc(self.v))
        self.v = 13
@Predicate
def cell(c: Cell) -> bool:
    return Acc(c.v) and Acc(c.nxt)
@Predicate
def pos(c: Cell, low: int) -> bool:
    return Acc(c.v) and c.v > low
@Predicate
def chain(c: Cell) -> bool:
    return Acc(c.v) and Acc(c.nxt) and Implies(c.nxt is not None, chain(c.nxt))
def mk(v: int) -> Cell:
    Ensures(cell(Result()))
    c = Cell(v)
    Fold(cell(c))
    return c
def use(c: Cell) -> int:
    Requires(cell(c))
    Ensures(cell(c))
    return 3
@Pure
def look(c: Cell) -> int:
    Requires(Rd(c.v))
    return c.v


def c0(a: int) -> None:
    x = Cell(a)
    Fold(cell(x))
    Unfold(cell(x))


def c1(a: int) -> None:
    x = Cell(a)
    Fold(cell(x))
    Assert(Unfolding(cell(x), x.v) == a)


def c2(a: int) -> None:
    x = Cell(a)
    Fold(cell(x))
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Unfolding(cell(x), x.v) == a + 1)


def c3(a: int) -> None:
    x = Cell(a)
    Fold(cell(x))
    r = use(x)
    assert r >= 0 or r < 0


def c4(a: int) -> None:
    x = Cell(a)
    Fold(cell(x))
    r = use(x)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 3


def c5(a: int) -> None:
    x = Cell(a)
    Fold(cell(x))
    r = use(x)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Unfolding(cell(x), x.v) == a)


def c6(a: int) -> None:
    x = Cell(a)
    Fold(cell(x))
    r = use(x)
    Unfold(cell(x))
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x.v == a


def c7(a: int) -> None:
    x = Cell(a)
    Fold(cell(x))
    r = use(x)
    Unfold(cell(x))
    x.v = 3


def c8(a: int) -> None:
    x = Cell(a)
    Fold(cell(x))
    r = use(x)
    Unfold(cell(x))
    #:: ExpectedOutput(unfold.failed:insufficient.permission)
    Unfold(cell(x))


def c9(a: int) -> None:
    x = Cell(a)
    #:: ExpectedOutput(fold.failed:assertion.false)
    Fold(pos(x, 0))


def c10(a: int) -> None:
    x = Cell(a)
    Fold(pos(x, a - 1))


def c11(a: int) -> None:
    x = Cell(a)
    #:: ExpectedOutput(fold.failed:assertion.false)
    Fold(pos(x, a))


def c12(a: int) -> None:
    x = Cell(a)
    Fold(pos(x, a - 2))
    #:: ExpectedOutput(unfold.failed:insufficient.permission)
    Unfold(pos(x, a - 3))


def c13(a: int) -> None:
    x = Cell(a)
    Fold(pos(x, a - 2))
    #:: ExpectedOutput(unfold.failed:insufficient.permission)
    Unfold(pos(x, 0))


def c14(a: int) -> None:
    x = Cell(a)
    Fold(pos(x, a - 2))
    Unfold(pos(x, a - 2))


def c15(a: int) -> None:
    x = Cell(a)
    Fold(pos(x, a - 2))
    Assert(Unfolding(pos(x, a - 2), x.v) == a)


def c16(a: int) -> None:
    x = Cell(a)
    Fold(pos(x, a - 2))
    Assert(Unfolding(pos(x, a - 2), x.v) > a - 2)


def c17(a: int) -> None:
    x = Cell(a)
    Fold(pos(x, a - 2))
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Unfolding(pos(x, a - 2), x.v) > a)


def c18(a: int) -> None:
    x = Cell(a)
    Fold(pos(x, a - 2))
    Unfold(pos(x, a - 2))
    assert x.v == a


def c19(a: int) -> None:
    Requires(a > 3)
    x = Cell(a)
    Fold(pos(x, 3))


def c20(a: int) -> None:
    Requires(a > 3)
    x = Cell(a)
    #:: ExpectedOutput(fold.failed:assertion.false)
    Fold(pos(x, a))


def c21(a: int) -> None:
    Requires(a > 3)
    x = Cell(a)
    #:: ExpectedOutput(fold.failed:assertion.false)
    Fold(pos(x, 4))


def c22(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    x.nxt = y
    assert x.nxt is y


def c23(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    x.nxt = y
    assert x.nxt is not None and x.nxt.v == b


def c24(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    x.nxt = y
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x.nxt is not None and x.nxt.v == a


def c25(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    x.nxt = y
    #:: ExpectedOutput(fold.failed:insufficient.permission)
    Fold(chain(x))


def c26(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    x.nxt = y
    Fold(chain(y))
    assert x.nxt is y


def c27(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    x.nxt = y
    Fold(chain(y))
    #:: ExpectedOutput(assert.failed:insufficient.permission)
    assert y.v == b


def c28(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    x.nxt = y
    Fold(chain(y))
    Fold(chain(x))


def c29(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    x.nxt = y
    Fold(chain(y))
    Fold(chain(x))
    #:: ExpectedOutput(unfold.failed:insufficient.permission)
    Unfold(chain(y))


def c30(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    x.nxt = y
    Fold(chain(y))
    Fold(chain(x))
    Assert(Unfolding(chain(x), x.v) == a)


def c31(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    x.nxt = y
    Fold(chain(y))
    Fold(chain(x))
    Assert(Unfolding(chain(x), x.nxt is y))


def c32(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    x.nxt = y
    Fold(chain(y))
    Fold(chain(x))
    Assert(Unfolding(chain(x), Unfolding(chain(y), y.v)) == b)


def c33(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    x.nxt = y
    Fold(chain(y))
    Fold(chain(x))
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Unfolding(chain(x), Unfolding(chain(y), y.v)) == a)


def c34(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    x.nxt = y
    Fold(chain(y))
    Fold(chain(x))
    Unfold(chain(x))
    Unfold(chain(y))


def c35(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    x.nxt = y
    Fold(chain(y))
    Fold(chain(x))
    Unfold(chain(x))
    #:: ExpectedOutput(assignment.failed:insufficient.permission)
    y.v = 4
