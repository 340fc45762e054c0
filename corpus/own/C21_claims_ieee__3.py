from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar
# case: float_encoding=ieee32





def c0(a: float) -> None:
    Requires(a == 2.5)
    assert a - 1.0 == 1.5


def c1(a: float) -> None:
    Requires(a == 2.5)
    assert 1.0 - a == -1.5


def c2(a: float) -> None:
    Requires(a == 2.5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 1.0 - a == 1.5


def c3(a: float) -> None:
    Requires(a == 2.5)
    assert a * a == 6.25


def c4(a: float) -> None:
    Requires(a == 2.5)
    assert -a == -2.5


def c5(a: float) -> None:
    Requires(a == 2.5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert -a == 2.5


def c6(a: float) -> None:
    Requires(a == 2.5)
    assert -a < a


def c7(a: float) -> None:
    Requires(a == 2.5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 5.0 / a == 0.5


def c8(a: float) -> None:
    Requires(a == 2.5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert int(a) == 3


def c9(a: float) -> None:
    Requires(a == 2.5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert int(-a) == -3


def c10(a: float) -> None:
    Requires(a == 2.5)
    assert int(0.5) == 0


def c11(a: float) -> None:
    Requires(a == 2.5)
    assert int(-0.5) == 0


def c12(a: float) -> None:
    Requires(a == 2.5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert int(-0.5) == -1


def c13(a: float) -> None:
    Requires(a == 2.5)
    assert int(3.0) == 3


def c14(a: float) -> None:
    Requires(a == 2.5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert int(-3.0) == -2


def c15(a: float, b: float) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a / b


def c16(a: float, b: float) -> None:
    Requires(b != 0.0)
    c = a / b


def c17(a: float, b: float) -> None:
    Requires(b > 0.0)
    c = a / b


def c18(a: float) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a / 0.0


def c19(a: float) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a / -0.0


def c20(a: float) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = 1.0 / a


def c21(a: float) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = int(a)


def c22(a: float) -> None:
    Requires(a == a)
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = int(a)


def c23(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    c = int(a)


def c24(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert int(a) >= 0


def c25(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert int(a) <= a


def c26(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    assert a - a == 0.0


def c27(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    assert -(-a) == a


def c28(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    assert a + 0.0 == a


def c29(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a + 1.0 == a


def c30(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a - 1.0 == 1.0 - a


def c31() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 5 / 2.5 == 0.5


def c32() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 1 - 2.5 == 1.5


def c33() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 3 < 2.5


def c34() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 2.5 < 2


def c35() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 2 == 2.5


def c36() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 2 > 2.0
