from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar
# case: float_encoding=real





def c0(a: float) -> None:
    Requires(a == 2.5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert int(-3.0) == -2


def c1(a: float, b: float) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a / b


def c2(a: float, b: float) -> None:
    Requires(b != 0.0)
    c = a / b


def c3(a: float, b: float) -> None:
    Requires(b > 0.0)
    c = a / b


def c4(a: float) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a / 0.0


def c5(a: float) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = a / -0.0


def c6(a: float) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = 1.0 / a


def c7(a: float) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = int(a)


def c8(a: float) -> None:
    Requires(a == a)
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = int(a)


def c9(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    c = int(a)


def c10(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    assert int(a) <= 10


def c11(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    assert int(a) >= -10


def c12(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert int(a) >= 0


def c13(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    assert a < 0.0 or int(a) <= a


def c14(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    assert a > 0.0 or int(a) >= a


def c15(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert int(a) <= a


def c16(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    assert a + 1.0 > a


def c17(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    assert a - 1.0 < a


def c18(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    assert a * 2.0 == a + a


def c19(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    assert a * 0.0 == 0.0


def c20(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    assert a - a == 0.0


def c21(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    assert -(-a) == a


def c22(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    assert a + 0.0 == a


def c23(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    assert a * 1.0 == a


def c24(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    assert a / 1.0 == a


def c25(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    assert -a == 0.0 - a


def c26(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a + 1.0 == a


def c27(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a - 1.0 == 1.0 - a


def c28(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    assert a * a >= 0.0


def c29(a: float) -> None:
    Requires(a > -10.0 and a < 10.0)
    assert a * -1.0 == -a


def c30(a: float, n: int) -> None:
    Requires(a > -10.0 and a < 10.0)
    Requires(n > -10 and n < 10)
    assert a + n == n + a


def c31(a: float, n: int) -> None:
    Requires(a > -10.0 and a < 10.0)
    Requires(n > -10 and n < 10)
    assert a * n == n * a


def c32(a: float, n: int) -> None:
    Requires(a > -10.0 and a < 10.0)
    Requires(n > -10 and n < 10)
    assert a - n == -(n - a)


def c33(a: float, n: int) -> None:
    Requires(a > -10.0 and a < 10.0)
    Requires(n > -10 and n < 10)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a - n == n - a


def c34(a: float, n: int) -> None:
    Requires(a > -10.0 and a < 10.0)
    Requires(n > -10 and n < 10)
    assert n + 0.0 == n
