from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class Cell:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)  # type: ignore
        Ensures(Acc(self.nxt) and self.nxt is None)  # type: ignore
        self.v = v
        self.nxt = None  # type: Optional[Cell]
    def bump(self) -> None:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == Old(self.v) + 1)
        self.v += 1
    def peek(self) -> int:
        Requires(Acc(self.v, 1/4))
        Ensures(Acc(self.v, 1/4) and Result() == self.v)
        return self.v
    def eat(self) -> None:
        Requires(Acc(self.v))
        self.v = 0
    def eat_half(self) -> None:
        Requires(Acc(self.v, 1/2))
    def havoc(self) -> None:
        Requires(Acc(self.v))
        Ensures(Acc(self.v))
        self.v = 13
@Predicate
def cell(c: Cell) -> bool:
    return Acc(c.v) and Acc(c.nxt)
@Predicate
def pos(c: Cell, low: int) -> bool:
    return Acc(c.v) and c.v > low
@Predicate
def chain(c: Cell) -> bool:
    return Acc(c.v) and Acc(c.nxt) and Implies(c.nxt is not None, chain(c.nxt))
def mk(v: int) -> Cell:
    Ensures(cell(Result()))
    c = Cell(v)
    Fold(cell(c))
    return c
def use(c: Cell) -> int:
    Requires(cell(c))
    Ensures(cell(c))
    return 3
@Pure
def look(c: Cell) -> int:
    Requires(Rd(c.v))
    return c.v


def c0(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    x.nxt = y
    Fold(chain(y))
    Fold(chain(x))
    Unfold(chain(x))
    Unfold(chain(y))
    assert y.v == b and x.v == a


def c1(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    x.nxt = y
    Fold(chain(y))
    Fold(chain(x))
    Unfold(chain(x))
    Unfold(chain(y))
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert y.v == a


def c2(x: Cell, y: Cell) -> None:
    Requires(Acc(x.v) and Acc(y.v))
    assert x is not y


def c3(x: Cell, y: Cell) -> None:
    Requires(Acc(x.v) and Acc(y.v))
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x is y


def c4(x: Cell, y: Cell) -> None:
    Requires(Acc(x.v) and Acc(y.v))
    x.v = 3
    y.v = 4
    assert x.v == 3


def c5(x: Cell, y: Cell) -> None:
    Requires(Acc(x.v, 1/2) and Acc(y.v, 1/2))
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x is not y


def c6(x: Cell, y: Cell) -> None:
    Requires(Acc(x.v, 1/2) and Acc(y.v, 1/2))
    #:: ExpectedOutput(assignment.failed:insufficient.permission)
    x.v = 3


def c7(x: Cell, y: Cell) -> None:
    Requires(Acc(x.v, 1/2) and Acc(y.v, 1/2))
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x.v == y.v


def c8(x: Cell, y: Cell) -> None:
    Requires(Acc(x.v, 1/2) and Acc(y.v, 1/2))
    Assert(Implies(x is y, x.v == y.v))


def c9(x: Cell, y: Cell) -> None:
    Requires(Acc(x.v, 2/3) and Acc(y.v, 2/3))
    assert x is not y


def c10(x: Cell, y: Cell) -> None:
    Requires(Acc(x.v) and Implies(x is not y, Acc(y.v)))
    x.v = 3
    y.v = 4
    assert y.v == 4


def c11(x: Cell, y: Cell) -> None:
    Requires(Acc(x.v) and Implies(x is not y, Acc(y.v)))
    x.v = 3
    y.v = 4
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x.v == 3


def c12(x: Cell, y: Cell) -> None:
    Requires(Acc(x.v) and Implies(x is not y, Acc(y.v)))
    x.v = 3
    y.v = 4
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x.v == 4


def c13(x: Cell, y: Cell) -> None:
    Requires(Acc(x.v) and Implies(x is not y, Acc(y.v)))
    x.v = 3
    y.v = 4
    Assert(Implies(x is y, x.v == 4))


def c14(x: Cell, y: Cell) -> None:
    Requires(Acc(x.v) and Implies(x is not y, Acc(y.v)))
    x.v = 3
    y.v = 4
    Assert(Implies(x is not y, x.v == 3))


def c15(x: Cell) -> None:
    Requires(cell(x))
    #:: ExpectedOutput(assignment.failed:insufficient.permission)
    x.v = 1


def c16(x: Cell) -> None:
    Requires(cell(x))
    #:: ExpectedOutput(assert.failed:insufficient.permission)
    assert x.v == 1


def c17(x: Cell) -> None:
    Requires(cell(x))
    Assert(Unfolding(cell(x), x.v) == Unfolding(cell(x), x.v))


def c18(x: Cell) -> None:
    Requires(cell(x))
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Unfolding(cell(x), x.v) == 0)


def c19(x: Cell) -> None:
    Requires(cell(x))
    k = use(x)
    use(x)


def c20(x: Cell) -> None:
    Requires(cell(x))
    k = use(x)
    #:: ExpectedOutput(application.precondition:insufficient.permission)
    look(x)


def c21(x: Cell) -> None:
    Requires(Acc(x.v, 1/9))
    assert x.v == x.v


def c22(x: Cell) -> None:
    Requires(Acc(x.v, 1/9))
    #:: ExpectedOutput(assignment.failed:insufficient.permission)
    x.v = 1


def c23(x: Cell) -> None:
    Requires(Acc(x.v, 1/9))
    look(x)


def c24(x: Cell) -> None:
    Requires(Acc(x.v, 1/9))
    #:: ExpectedOutput(call.precondition:insufficient.permission)
    x.bump()


def c25(x: Cell) -> None:
    Requires(Acc(x.v, 1/9))
    #:: ExpectedOutput(call.precondition:insufficient.permission)
    x.peek()


def c26(x: Cell) -> None:
    Requires(Acc(x.v, 1/2))
    look(x)


def c27(x: Cell) -> None:
    Requires(Acc(x.v, 1/2))
    t = x.v
    k = look(x)
    assert t == x.v and k == t


def c28(x: Cell) -> None:
    Requires(Acc(x.v, 1/2))
    t = x.v
    k = look(x)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t == 0


def c29(x: Cell) -> None:
    Requires(Acc(x.v, 1/2))
    t = x.v
    k = look(x)
    x.peek()


def c30(x: Cell) -> None:
    Requires(Acc(x.v, 1/2))
    t = x.v
    k = look(x)
    x.eat_half()


def c31(x: Cell) -> None:
    Requires(Acc(x.v, 1/2))
    t = x.v
    k = look(x)
    #:: ExpectedOutput(call.precondition:insufficient.permission)
    x.eat()


def c32(xs: List[int]) -> None:
    Requires(list_pred(xs))
    n = len(xs)
    xs.append(1)
    assert len(xs) == n + 1


def c33(xs: List[int]) -> None:
    Requires(list_pred(xs))
    n = len(xs)
    xs.append(1)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(xs) == n
