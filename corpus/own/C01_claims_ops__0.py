from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


def ident(x: int) -> int:
    Ensures(Result() == x)
    return x


def c0(a: int, b: int) -> None:
    assert a + b == b + a


def c1(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a - b == b - a


def c2(a: int, b: int) -> None:
    assert a - b == -(b - a)


def c3(a: int, b: int) -> None:
    assert a * b == b * a


def c4(a: int, b: int) -> None:
    assert a * (b + 1) == a * b + a


def c5(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a * b >= a


def c6(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a - b - 1 == a - (b - 1)


def c7(a: int, b: int) -> None:
    assert a - b - 1 == (a - b) - 1


def c8(a: int, b: int) -> None:
    assert a - (b - a) == 2 * a - b


def c9(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert -a - b == -(a - b)


def c10(a: int, b: int) -> None:
    assert -(a - b) == b - a


def c11(a: int, b: int) -> None:
    assert abs(a) >= 0


def c12(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert abs(a) > 0


def c13(a: int, b: int) -> None:
    assert abs(a) == a or abs(a) == -a


def c14(a: int, b: int) -> None:
    assert abs(a - b) == abs(b - a)


def c15(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert abs(a) == a


def c16(a: int, b: int) -> None:
    assert max(a, b) >= a and max(a, b) >= b


def c17(a: int, b: int) -> None:
    assert max(a, b) == a or max(a, b) == b


def c18(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert max(a, b) == a


def c19(a: int, b: int) -> None:
    assert min(a, b) <= a and min(a, b) <= b


def c20(a: int, b: int) -> None:
    assert min(a, b) == a or min(a, b) == b


def c21(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert min(a, b) == b


def c22(a: int, b: int) -> None:
    assert min(a, b) + max(a, b) == a + b


def c23(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert min(a, b) < max(a, b)


def c24(a: int, b: int) -> None:
    assert max(a, min(a, b)) == a


def c25(a: int, b: int) -> None:
    assert (a < b) == (b > a)


def c26(a: int, b: int) -> None:
    assert (a <= b) == (not b < a)


def c27(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a <= b) == (b < a)


def c28(a: int, b: int) -> None:
    assert (a == b) == (not (a != b))


def c29(a: int, b: int) -> None:
    assert a < b or a == b or a > b


def c30(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a < b or a > b


def c31(a: int, b: int) -> None:
    assert (a < b) != (a >= b)


def c32(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a != b


def c33(a: int, b: int) -> None:
    assert not (a < b and b < a)


def c34(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert not (a <= b and b <= a)


def c35(a: int, b: int) -> None:
    assert (a if a > b else b) == max(a, b)


def c36(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a if a < b else b) == max(a, b)
