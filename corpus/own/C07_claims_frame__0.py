from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class Cell:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)  # type: ignore
        Ensures(Acc(self.nxt) and self.nxt is None)  # type: ignore
        self.v = v
        self.nxt = None  # type: Optional[Cell]
    def bump(self) -> None:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == Old(self.v) + 1)
        self.v += 1
    def peek(self) -> int:
        Requires(Acc(self.v, 1/4))
        Ensures(Acc(self.v, 1/4) and Result() == self.v)
        return self.v
    def eat(self) -> None:
        Requires(Acc(self.v))
        self.v = 0
    def eat_half(self) -> None:
        Requires(Acc(self.v, 1/2))
    def havoc(self) -> None:
        Requires(Acc(self.v))
        Ensures(Acc(self.v))
        self.v = 13
@Predicate
def cell(c: Cell) -> bool:
    return Acc(c.v) and Acc(c.nxt)
@Predicate
def pos(c: Cell, low: int) -> bool:
    return Acc(c.v) and c.v > low
@Predicate
def chain(c: Cell) -> bool:
    return Acc(c.v) and Acc(c.nxt) and Implies(c.nxt is not None, chain(c.nxt))
def mk(v: int) -> Cell:
    Ensures(cell(Result()))
    c = Cell(v)
    Fold(cell(c))
    return c
def use(c: Cell) -> int:
    Requires(cell(c))
    Ensures(cell(c))
    return 3
@Pure
def look(c: Cell) -> int:
    Requires(Rd(c.v))
    return c.v


def c0(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    assert x.v == a


def c1(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    assert x is not y


def c2(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x is y


def c3(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    y.v = 7
    assert x.v == a


def c4(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    y.v = 7
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x.v == 7


def c5(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    y.v = 7
    assert y.v == 7


def c6(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    y.v = 7
    x.bump()
    assert x.v == a + 1


def c7(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    y.v = 7
    x.bump()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x.v == a


def c8(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    y.v = 7
    x.bump()
    assert y.v == 7


def c9(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    y.v = 7
    x.bump()
    y.havoc()
    assert x.v == a + 1


def c10(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    y.v = 7
    x.bump()
    y.havoc()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert y.v == 7


def c11(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    y.v = 7
    x.bump()
    y.havoc()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert y.v == 13


def c12(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    y.v = 7
    x.bump()
    y.havoc()
    z = y
    z.v = 8
    assert y.v == 8


def c13(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    y.v = 7
    x.bump()
    y.havoc()
    z = y
    z.v = 8
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert y.v == 7


def c14(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    y.v = 7
    x.bump()
    y.havoc()
    z = y
    z.v = 8
    r = y.peek()
    assert r == 8 and y.v == 8


def c15(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    y.v = 7
    x.bump()
    y.havoc()
    z = y
    z.v = 8
    r = y.peek()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 7


def c16(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    y.v = 7
    x.bump()
    y.havoc()
    z = y
    z.v = 8
    r = y.peek()
    q = look(y)
    assert q == 8 and y.v == 8


def c17(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    y.v = 7
    x.bump()
    y.havoc()
    z = y
    z.v = 8
    r = y.peek()
    q = look(y)
    y.v = 3


def c18(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    y.v = 7
    x.bump()
    y.havoc()
    z = y
    z.v = 8
    r = y.peek()
    q = look(y)
    x.eat()
    #:: ExpectedOutput(assert.failed:insufficient.permission)
    assert x.v == 0


def c19(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    y.v = 7
    x.bump()
    y.havoc()
    z = y
    z.v = 8
    r = y.peek()
    q = look(y)
    x.eat()
    #:: ExpectedOutput(assignment.failed:insufficient.permission)
    x.v = 1


def c20(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    y.v = 7
    x.bump()
    y.havoc()
    z = y
    z.v = 8
    r = y.peek()
    q = look(y)
    x.eat()
    #:: ExpectedOutput(call.precondition:insufficient.permission)
    x.bump()


def c21(a: int, b: int) -> None:
    x = Cell(a)
    y = Cell(b)
    y.v = 7
    x.bump()
    y.havoc()
    z = y
    z.v = 8
    r = y.peek()
    q = look(y)
    x.eat()
    assert y.v == 8


def c22(a: int) -> None:
    x = Cell(a)
    x.eat_half()
    assert x.v == a


def c23(a: int) -> None:
    x = Cell(a)
    x.eat_half()
    #:: ExpectedOutput(assignment.failed:insufficient.permission)
    x.v = 2


def c24(a: int) -> None:
    x = Cell(a)
    x.eat_half()
    x.eat_half()


def c25(a: int) -> None:
    x = Cell(a)
    x.eat_half()
    #:: ExpectedOutput(call.precondition:insufficient.permission)
    x.bump()


def c26(a: int) -> None:
    x = Cell(a)
    x.eat_half()
    x.peek()


def c27(a: int) -> None:
    x = Cell(a)
    x.eat_half()
    x.eat_half()
    #:: ExpectedOutput(assert.failed:insufficient.permission)
    assert x.v == a


def c28(a: int) -> None:
    x = Cell(a)
    x.eat_half()
    x.eat_half()
    #:: ExpectedOutput(call.precondition:insufficient.permission)
    x.peek()


def c29(a: int) -> None:
    x = Cell(a)
    x.eat_half()
    x.eat_half()
    #:: ExpectedOutput(call.precondition:insufficient.permission)
    x.eat_half()


def c30(a: int) -> None:
    x = Cell(a)
    Fold(cell(x))


def c31(a: int) -> None:
    x = Cell(a)
    #:: ExpectedOutput(unfold.failed:insufficient.permission)
    Unfold(cell(x))


def c32(a: int) -> None:
    x = Cell(a)
    Fold(cell(x))
    #:: ExpectedOutput(assert.failed:insufficient.permission)
    assert x.v == a


def c33(a: int) -> None:
    x = Cell(a)
    Fold(cell(x))
    #:: ExpectedOutput(assignment.failed:insufficient.permission)
    x.v = 3


def c34(a: int) -> None:
    x = Cell(a)
    Fold(cell(x))
    #:: ExpectedOutput(call.precondition:insufficient.permission)
    x.bump()


def c35(a: int) -> None:
    x = Cell(a)
    Fold(cell(x))
    #:: ExpectedOutput(fold.failed:insufficient.permission)
    Fold(cell(x))
