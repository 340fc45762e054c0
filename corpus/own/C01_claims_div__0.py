from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int, b: int) -> None:
    Requires(b != 0)
    assert (a // b) * b + a % b == a


def c1(a: int, b: int) -> None:
    Requires(b != 0)
    Assert(Implies(b > 0, 0 <= a % b and a % b < b))


def c2(a: int, b: int) -> None:
    Requires(b != 0)
    Assert(Implies(b < 0, b < a % b and a % b <= 0))


def c3(a: int, b: int) -> None:
    Requires(b != 0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a % b >= 0


def c4(a: int, b: int) -> None:
    Requires(b != 0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(b < 0, a % b == 0))


def c5(a: int, b: int) -> None:
    Requires(b != 0)
    Assert(Implies(a == 7 and b == -2, a // b == -4))


def c6(a: int, b: int) -> None:
    Requires(b != 0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(a == 7 and b == -2, a // b == -3))


def c7(a: int, b: int) -> None:
    Requires(b != 0)
    Assert(Implies(a == 7 and b == -2, a % b == -1))


def c8(a: int, b: int) -> None:
    Requires(b != 0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(a == 7 and b == -2, a % b == 1))


def c9(a: int, b: int) -> None:
    Requires(b != 0)
    Assert(Implies(a == -7 and b == 2, a // b == -4))


def c10(a: int, b: int) -> None:
    Requires(b != 0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(a == -7 and b == 2, a // b == -3))


def c11(a: int, b: int) -> None:
    Requires(b != 0)
    Assert(Implies(a == -7 and b == -2, a // b == 3))


def c12(a: int, b: int) -> None:
    Requires(b != 0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(a == -7 and b == -2, a // b == 4))


def c13(a: int, b: int) -> None:
    Requires(b != 0)
    Assert(Implies(a == -7 and b == -2, a % b == -1))


def c14(a: int, b: int) -> None:
    Requires(b != 0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(a == -7 and b == -2, a % b == 1))


def c15(a: int, b: int) -> None:
    Requires(b != 0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert -a // b == -(a // b)


def c16(a: int, b: int) -> None:
    Requires(b != 0)
    assert (a + b) // b == a // b + 1


def c17(a: int, b: int) -> None:
    Requires(b != 0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a // b <= a


def c18(a: int, b: int) -> None:
    Requires(b != 0)
    assert a // b != a or b == 1 or a == 0 or a == -1


def c19(a: int, b: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a // b


def c20(a: int, b: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a % b
