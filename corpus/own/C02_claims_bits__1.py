from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a & b) >= 0


def c1(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    Assert(Implies(a < 0 and b < 0, (a & b) < 0))


def c2(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(a < 0 and b < 0, (a & b) >= 0))


def c3(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    Assert(Implies(a < 0, (a | b) < 0))


def c4(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(a < 0, (a | b) >= 0))


def c5(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    Assert(Implies(a < 0 and b >= 0, (a ^ b) < 0))


def c6(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(a < 0 and b >= 0, (a ^ b) >= 0))


def c7(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    assert -1 & -1 == -1


def c8(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert -1 & -1 == 255


def c9(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    assert -1 & 255 == 255


def c10(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    assert -2 | 1 == -1


def c11(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    assert -256 & 255 == 0


def c12(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    assert -256 | 255 == -1


def c13(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    assert -5 ^ 3 == -8


def c14(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    assert (a & 1) == a % 2


def c15(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    assert (a >> 1) == a // 2


def c16(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    assert (a >> 3) == a // 8


def c17(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(a < 0, (a >> 1) == -((-a) // 2)))


def c18(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    assert (a << 1) == 2 * a


def c19(a: int, b: int) -> None:
    Requires(-256 <= a and a < 256)
    Requires(-256 <= b and b < 256)
    assert ~a == -a - 1


def c20(a: int, b: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a & b


def c21(a: int, b: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a | b


def c22(a: int, b: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a ^ b


def c23(a: int, b: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a << b


def c24(a: int, b: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a >> b


def c25(a: int, b: int) -> None:
    c = a << 3


def c26(a: int, b: int) -> None:
    c = a >> 3


def c27(a: int, b: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a << (b * b)


def c28(a: int, b: int) -> None:
    c = ~a


def c29(a: int) -> None:
    Requires(0 <= a and a < 256)
    c = a & 255


def c30(a: int) -> None:
    Requires(0 <= a and a < 256)
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a >> -1


def c31(a: int) -> None:
    Requires(0 <= a and a < 256)
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a << -1


def c32(a: int) -> None:
    Requires(0 <= a and a < 256)
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a << (a - 1)


def c33(a: int) -> None:
    Requires(0 <= a and a < 256)
    c = a << 70


def c34(a: int) -> None:
    Requires(0 <= a and a < 256)
    c = a >> 70


def c35(a: int) -> None:
    Requires(-256 <= a and a < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a >> 70) == 0


def c36(a: int) -> None:
    Requires(-256 <= a and a < 256)
    assert (a >> 65) == (-1 if a < 0 else 0)


def c37(a: int) -> None:
    Requires(-256 <= a and a < 256)
    assert (1 << 70) > 0
