from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    assert (a & b) <= a


def c1(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a & b) < a


def c2(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    assert (a & b) >= 0


def c3(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a | b) == a + b


def c4(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a ^ b) == (a | b) + (a & b)


def c5(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    assert (a & 1) == a % 2


def c6(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a & 1) == 0


def c7(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a & 15) == a % 8


def c8(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    assert (a | 0) == a


def c9(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    assert (a ^ 0) == a


def c10(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    assert (a ^ a) == 0


def c11(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    assert (a ^ b) == (b ^ a)


def c12(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    assert (a & 240) == (a >> 4) * 16


def c13(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    assert (a >> 1) == a // 2


def c14(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    assert (a >> 4) == a // 16


def c15(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a >> 4) == a // 8


def c16(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    assert (a >> 8) == 0


def c17(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    assert (a << 1) == 2 * a


def c18(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    assert (a << 8) == 256 * a


def c19(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    assert (a << 2 >> 2) == a


def c20(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a >> 2 << 2) == a


def c21(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    assert ~a == -a - 1


def c22(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert ~a == -a


def c23(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    assert ~~a == a


def c24(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    assert 12 & 10 == 8


def c25(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    assert 12 | 10 == 14


def c26(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    assert 12 ^ 10 == 6


def c27(a: int, b: int) -> None:
    Requires(0 <= a and a < 256)
    Requires(0 <= b and b < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 12 ^ 10 == 7


def c28(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    assert (a & a) == a


def c29(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    assert (a | a) == a


def c30(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    assert (a ^ a) == 0


def c31(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    assert (a & 0) == 0


def c32(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    assert (a | -1) == -1


def c33(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    assert (a | 0) == a
