from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar
# case: float_encoding=real





def c0(a: float, n: int) -> None:
    Requires(a > -10.0 and a < 10.0)
    Requires(n > -10 and n < 10)
    assert (a < n) == (n > a)


def c1(a: float, n: int) -> None:
    Requires(a > -10.0 and a < 10.0)
    Requires(n > -10 and n < 10)
    assert (a <= n) == (n >= a)


def c2(a: float, n: int) -> None:
    Requires(a > -10.0 and a < 10.0)
    Requires(n > -10 and n < 10)
    assert (a == n) == (n == a)


def c3(a: float, n: int) -> None:
    Requires(a > -10.0 and a < 10.0)
    Requires(n > -10 and n < 10)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a < n


def c4(a: float, n: int) -> None:
    Requires(a > -10.0 and a < 10.0)
    Requires(n > -10 and n < 10)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert n - a == a


def c5(a: float, n: int) -> None:
    Requires(a > -10.0 and a < 10.0)
    Requires(n > -10 and n < 10)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert n < a


def c6(a: float, n: int) -> None:
    Requires(a > -10.0 and a < 10.0)
    Requires(n > -10 and n < 10)
    assert (n < a) == (a > n)


def c7(a: float, n: int) -> None:
    Requires(a > -10.0 and a < 10.0)
    Requires(n > -10 and n < 10)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a == n


def c8(a: float, n: int) -> None:
    Requires(a > -10.0 and a < 10.0)
    Requires(n > -10 and n < 10)
    assert n * 1.0 == n


def c9(a: float, n: int) -> None:
    Requires(a > -10.0 and a < 10.0)
    Requires(n > -10 and n < 10)
    assert n - 0.0 == n


def c10(a: float, n: int) -> None:
    Requires(a > -10.0 and a < 10.0)
    Requires(n > -10 and n < 10)
    assert 0.0 - n == -n


def c11(a: float, n: int) -> None:
    Requires(a > -10.0 and a < 10.0)
    Requires(n > -10 and n < 10)
    assert n + 0.5 > n


def c12(a: float, n: int) -> None:
    Requires(a > -10.0 and a < 10.0)
    Requires(n > -10 and n < 10)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert n + 0.5 == n


def c13(a: float, n: int) -> None:
    Requires(a > -10.0 and a < 10.0)
    Requires(n > -10 and n < 10)
    assert 2.0 * n == n + n


def c14(n: int) -> None:
    Requires(n > 0 and n < 100)
    assert n / 2.0 > 0.0


def c15(n: int) -> None:
    Requires(n > 0 and n < 100)
    assert n / 1.0 == n


def c16(n: int) -> None:
    Requires(n > 0 and n < 100)
    assert 1.0 / n <= 1.0


def c17(n: int) -> None:
    Requires(n > 0 and n < 100)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 1.0 / n < 1.0


def c18(n: int) -> None:
    Requires(n > 0 and n < 100)
    assert (n + 0.5) - n == 0.5


def c19(n: int) -> None:
    Requires(n > 0 and n < 100)
    assert n * 0.5 < n


def c20(n: int) -> None:
    Requires(n > 0 and n < 100)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 0.5 * n > n


def c21(n: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = n / 0.0


def c22(n: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = 1.0 / n


def c23(n: int) -> None:
    Requires(n != 0)
    c = 1.0 / n


def c24(n: int) -> None:
    Requires(n != 0)
    c = 1 / n


def c25(n: int, m: int) -> None:
    Requires(n != 0)
    c = m / n
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c * n == m


def c26(n: int, m: int) -> None:
    Requires(n != 0)
    c = m / n
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c == 0.0


def c27(n: int, m: int) -> None:
    Requires(n != 0)
    c = m / n
    assert n != 1 or c == m


def c28(n: int, m: int) -> None:
    Requires(n != 0)
    c = m / n
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert n != 2 or m != 1 or c == 0.0


def c29(n: int, m: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    c = m / n
