from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


from enum import IntEnum
class Color(IntEnum):
    red = 0
    green = 1
    blue = 5
class Lvl(IntEnum):
    low = -1
    mid = 0
    high = 1


def c0(c: Color) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c > 0


def c1(c: Color) -> None:
    assert c <= 5


def c2(c: Color) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c < 5


def c3(c: Color) -> None:
    assert c != 2


def c4(c: Color) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c is Color.red or c is Color.green


def c5(c: Color) -> None:
    assert int(c) == c


def c6(c: Color) -> None:
    assert isinstance(c, int)


def c7(c: Color) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(c, Lvl)


def c8(c: Color) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    Lvl(c)


def c9(c: Color, d: Color) -> None:
    assert c == d or c != d


def c10(c: Color, d: Color) -> None:
    Assert(Implies(c is d, c == d))


def c11(c: Color, d: Color) -> None:
    Assert(Implies(c < d, d > c))


def c12(c: Color, d: Color) -> None:
    Assert(Implies(c < d, d == Color.blue or d == Color.green))


def c13(c: Color, d: Color) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(c < d, d == Color.blue))


def c14(c: Color, d: Color) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c + d <= 9


def c15(c: Color, l: Lvl) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(c == l, c is l))


def c16(c: Color, l: Lvl) -> None:
    Assert(Implies(c == l, int(c) == int(l)))


def c17(c: Color, l: Lvl) -> None:
    Assert(Implies(c > l, c != Color.red or l == Lvl.low))


def c18(c: Color, l: Lvl) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(c > l, c != Color.red))


def c19(c: Color, l: Lvl) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c >= l


def c20(n: int) -> None:
    Requires(n == 0 or n == 1 or n == 5)
    c = Color(n)
    assert c == n


def c21(n: int) -> None:
    Requires(n == 0 or n == 1 or n == 5)
    c = Color(n)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c == n + 1


def c22(n: int) -> None:
    Requires(n == 0 or n == 1 or n == 5)
    c = Color(n)
    assert int(c) == n


def c23(n: int) -> None:
    Requires(n == 0 or n == 1 or n == 5)
    c = Color(n)
    Assert(Implies(n == 5, c is Color.blue))


def c24(n: int) -> None:
    Requires(n == 0 or n == 1 or n == 5)
    c = Color(n)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(n == 5, c is Color.green))


def c25(n: int) -> None:
    Requires(n == 0 or n == 1 or n == 5)
    c = Color(n)
    #:: ExpectedOutput(application.precondition:assertion.false)
    Lvl(n)


def c26(n: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    Color(n)


def c27(n: int) -> None:
    Color(abs(n) % 2)


def c28(n: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    Color(abs(n) % 3)
