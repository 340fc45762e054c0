from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


def ident(x: int) -> int:
    Ensures(Result() == x)
    return x


def c0(a: int, b: int) -> None:
    assert a + b - b == a


def c1(a: int, b: int) -> None:
    assert +a == a


def c2(a: int, b: int) -> None:
    assert -(-a) == a


def c3(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert -a == a


def c4(a: int, b: int) -> None:
    assert a * a >= 0


def c5(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a * a > 0


def c6(a: int, b: int) -> None:
    assert a * a >= a


def c7(a: int, b: int) -> None:
    assert 2 * a == a + a


def c8(a: int, b: int) -> None:
    assert a ** 2 == a * a


def c9(a: int, b: int) -> None:
    assert a ** 0 == 1


def c10(a: int, b: int) -> None:
    assert a ** 1 == a


def c11(a: int, b: int) -> None:
    assert a ** 3 == a * a * a


def c12(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a ** 2 > 0


def c13(a: int, b: int) -> None:
    assert 2 ** 5 == 32


def c14(a: int, b: int) -> None:
    assert (-2) ** 3 == -8


def c15(a: int, b: int) -> None:
    assert -2 ** 2 == -4


def c16(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert -2 ** 2 == 4


def c17(a: int, b: int) -> None:
    assert a - b + b == a


def c18(a: int, b: int) -> None:
    assert 2 + 3 * a == 3 * a + 2


def c19(a: int, b: int) -> None:
    assert (2 + 3) * a == 5 * a


def c20(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 2 + 3 * a == 5 * a


def c21(a: int, b: int, c: int) -> None:
    assert (a < b < c) == (a < b and b < c)


def c22(a: int, b: int, c: int) -> None:
    Assert(Implies(a < b < c, a < c))


def c23(a: int, b: int, c: int) -> None:
    Assert(Implies(a < b < c, a + 1 < c))


def c24(a: int, b: int, c: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(a < b < c, a + 2 < c))


def c25(a: int, b: int, c: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(a <= b <= c, a < c))


def c26(a: int, b: int, c: int) -> None:
    assert (a < b > c) == (a < b and b > c)


def c27(a: int, b: int, c: int) -> None:
    assert (a < b > c) == (b > max(a, c))


def c28(a: int, b: int, c: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a < b > c) == (b > min(a, c))


def c29(a: int, b: int, c: int) -> None:
    assert (a == b == c) == (a == b and b == c)


def c30(a: int, b: int, c: int) -> None:
    assert (a == b == c) == (a == b and a == c)


def c31(a: int, b: int, c: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a != b != c) == (a != b and b != c and a != c)


def c32(a: int, b: int, c: int) -> None:
    assert (a < b == c) == (a < c and b == c)


def c33(a: int, b: int, c: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a < b == c) == ((a < b) == (c == 1))


def c34(a: int, b: int, c: int) -> None:
    assert a - b - c == a - (b + c)


def c35(a: int, b: int, c: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a - b - c == a - (b - c)
