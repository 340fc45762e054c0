from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int, b: int) -> None:
    c = 5 // (a - a + 1)


def c1(a: int) -> None:
    assert 7 // 2 == 3


def c2(a: int) -> None:
    assert -7 // 2 == -4


def c3(a: int) -> None:
    assert -7 % 3 == 2


def c4(a: int) -> None:
    assert a // 1 == a


def c5(a: int) -> None:
    assert a // -1 == -a


def c6(a: int) -> None:
    assert a % 2 == 0 or a % 2 == 1


def c7(a: int) -> None:
    assert a % -2 == 0 or a % -2 == -1


def c8(a: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a // 2 * 2 == a


def c9(a: int) -> None:
    assert a * 4 // 4 == a


def c10(a: int) -> None:
    assert a * 4 // -4 == -a


def c11(a: int) -> None:
    b = a
    b //= 2
    assert b * 2 <= a


def c12(a: int) -> None:
    b = a
    b //= 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b * 2 == a


def c13(a: int) -> None:
    b = a
    b //= 2
    b %= 3
    assert b >= 0 and b <= 2


def c14(a: int) -> None:
    b = a
    b //= 2
    b %= 3
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b <= 1


def c15(a: bool, b: int) -> None:
    assert a // 1 == a


def c16(a: bool, b: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = b // a


def c17(a: bool, b: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = b % a
