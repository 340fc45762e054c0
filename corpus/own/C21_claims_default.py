from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int, b: int) -> None:
    x: float = a
    y: float = b
    assert x + y == a + b


def c1(a: int, b: int) -> None:
    x: float = a
    y: float = b
    assert (x < y) == (a < b)


def c2(a: int, b: int) -> None:
    x: float = a
    y: float = b
    assert (x <= y) == (a <= b)


def c3(a: int, b: int) -> None:
    x: float = a
    y: float = b
    assert (x > y) == (a > b)


def c4(a: int, b: int) -> None:
    x: float = a
    y: float = b
    assert (x >= y) == (a >= b)


def c5(a: int, b: int) -> None:
    x: float = a
    y: float = b
    assert (x == y) == (a == b)


def c6(a: int, b: int) -> None:
    x: float = a
    y: float = b
    assert (x != y) == (a != b)


def c7(a: int, b: int) -> None:
    x: float = a
    y: float = b
    assert x - y == a - b


def c8(a: int, b: int) -> None:
    x: float = a
    y: float = b
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x - y == b - a


def c9(a: int, b: int) -> None:
    x: float = a
    y: float = b
    assert x * y == a * b


def c10(a: int, b: int) -> None:
    x: float = a
    y: float = b
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x < y


def c11(a: int, b: int) -> None:
    x: float = a
    y: float = b
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x == y


def c12(a: int, b: int) -> None:
    x: float = a
    y: float = b
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x + y == a


def c13(a: int, b: int) -> None:
    x: float = a
    y: float = b
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x >= y


def c14(a: int, b: int) -> None:
    x: float = a
    y: float = b
    w = 0
    if x:
        w = 1
    assert (w == 1) == (a != 0)


def c15(a: int, b: int) -> None:
    x: float = a
    y: float = b
    w = 0
    if x:
        w = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert w == 1


def c16(a: int, b: int) -> None:
    x: float = a
    y: float = b
    w = 0
    if x:
        w = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert w == 0


def c17(x: float, y: float) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x < y


def c18(x: float, y: float) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x == y


def c19(x: float, y: float) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x + y == x


def c20(x: float, y: float) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x == x


def c21(x: float, y: float) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = x / y


def c22(x: Optional[float]) -> None:
    w = 0
    if x:
        w = 1
    assert w == 0 or x is not None


def c23(x: Optional[float]) -> None:
    w = 0
    if x:
        w = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert w == 1 or x is None
