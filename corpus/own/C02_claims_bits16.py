from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar
# case: bv_size=16





def c0(a: int, b: int) -> None:
    Requires(-65536 <= a and a < 65536)
    Requires(-65536 <= b and b < 65536)
    assert (a & a) == a


def c1(a: int, b: int) -> None:
    Requires(-65536 <= a and a < 65536)
    Requires(-65536 <= b and b < 65536)
    assert (a ^ a) == 0


def c2(a: int, b: int) -> None:
    Requires(-65536 <= a and a < 65536)
    Requires(-65536 <= b and b < 65536)
    assert (a & 0) == 0


def c3(a: int, b: int) -> None:
    Requires(-65536 <= a and a < 65536)
    Requires(-65536 <= b and b < 65536)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a & b) >= 0


def c4(a: int, b: int) -> None:
    Requires(-65536 <= a and a < 65536)
    Requires(-65536 <= b and b < 65536)
    assert (a >> 3) == a // 8


def c5(a: int, b: int) -> None:
    Requires(-65536 <= a and a < 65536)
    Requires(-65536 <= b and b < 65536)
    assert (a << 1) == 2 * a


def c6(a: int, b: int) -> None:
    Requires(-65536 <= a and a < 65536)
    Requires(-65536 <= b and b < 65536)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert -1 & -1 == 65535


def c7(a: int, b: int) -> None:
    Requires(-65536 <= a and a < 65536)
    Requires(-65536 <= b and b < 65536)
    assert -5 ^ 3 == -8


def c8(a: int, b: int) -> None:
    Requires(-65536 <= a and a < 65536)
    Requires(-65536 <= b and b < 65536)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 40000 & 255 == 40000


def c9(a: int, b: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a & b


def c10(a: int, b: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a | b


def c11(a: int, b: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a ^ b


def c12(a: int, b: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a << b


def c13(a: int, b: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a >> b


def c14(a: int, b: int) -> None:
    c = a << 3


def c15(a: int) -> None:
    Requires(0 <= a and a < 65536)
    c = a & 255


def c16(a: int) -> None:
    Requires(0 <= a and a < 65536)
    c = a | 65535


def c17(a: int) -> None:
    Requires(0 <= a and a < 65536)
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a & 65536


def c18(a: int) -> None:
    Requires(0 <= a and a < 65536)
    c = a << 70


def c19(a: int) -> None:
    Requires(0 <= a and a < 65536)
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a >> -1


def c20(a: int) -> None:
    Requires(-65536 <= a and a < 65536)
    assert (a >> 65) == (-1 if a < 0 else 0)


def c21(a: int) -> None:
    Requires(-65536 <= a and a < 65536)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (1 << 70) == 0


def c22(a: int) -> None:
    Requires(-65536 <= a and a < 65536)
    assert (-1 >> 100) == -1
