from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar
# case: float_encoding=real





def c0() -> None:
    assert 1.5 < 2.5


def c1() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 2.5 < 1.5


def c2() -> None:
    assert 1.5 <= 1.5


def c3() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 1.5 < 1.5


def c4() -> None:
    assert 1.5 >= 1.5


def c5() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 1.5 > 1.5


def c6() -> None:
    assert -1.5 < 1.5


def c7() -> None:
    assert -1.5 == 0.0 - 1.5


def c8() -> None:
    assert 0.0 == -0.0


def c9() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 1.5 == 1.25


def c10() -> None:
    assert 0.5 != 0.25


def c11() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 1.5 - 0.5 == 0.5 - 1.5


def c12() -> None:
    assert 1.0 / 4.0 == 0.25


def c13() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 4.0 / 1.0 == 0.25


def c14(a: float) -> None:
    Requires(a == 2.5)
    assert a + a == 5.0


def c15(a: float) -> None:
    Requires(a == 2.5)
    assert a - 1.0 == 1.5


def c16(a: float) -> None:
    Requires(a == 2.5)
    assert 1.0 - a == -1.5


def c17(a: float) -> None:
    Requires(a == 2.5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 1.0 - a == 1.5


def c18(a: float) -> None:
    Requires(a == 2.5)
    assert a * a == 6.25


def c19(a: float) -> None:
    Requires(a == 2.5)
    assert -a == -2.5


def c20(a: float) -> None:
    Requires(a == 2.5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert -a == 2.5


def c21(a: float) -> None:
    Requires(a == 2.5)
    assert -a < a


def c22(a: float) -> None:
    Requires(a == 2.5)
    assert a / 2.0 == 1.25


def c23(a: float) -> None:
    Requires(a == 2.5)
    assert 5.0 / a == 2.0


def c24(a: float) -> None:
    Requires(a == 2.5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 5.0 / a == 0.5


def c25(a: float) -> None:
    Requires(a == 2.5)
    assert int(a) == 2


def c26(a: float) -> None:
    Requires(a == 2.5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert int(a) == 3


def c27(a: float) -> None:
    Requires(a == 2.5)
    assert int(-a) == -2


def c28(a: float) -> None:
    Requires(a == 2.5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert int(-a) == -3


def c29(a: float) -> None:
    Requires(a == 2.5)
    assert int(0.0 - a) == -2


def c30(a: float) -> None:
    Requires(a == 2.5)
    assert int(0.5) == 0


def c31(a: float) -> None:
    Requires(a == 2.5)
    assert int(-0.5) == 0


def c32(a: float) -> None:
    Requires(a == 2.5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert int(-0.5) == -1


def c33(a: float) -> None:
    Requires(a == 2.5)
    assert int(3.0) == 3


def c34(a: float) -> None:
    Requires(a == 2.5)
    assert int(-3.0) == -3
