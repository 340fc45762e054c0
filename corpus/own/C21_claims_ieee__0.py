from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar
# case: float_encoding=ieee32





def c0(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert n < i


def c1(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert n <= i


def c2(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert n > i


def c3(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert i < n


def c4(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert i >= n


def c5(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert n == n


def c6(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    assert n != n


def c7(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    assert i == i


def c8(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    assert not (n < a)


def c9(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    assert not (a <= n)


def c10(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    assert not (a >= n)


def c11(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    assert not (n > a)


def c12(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a < n


def c13(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    assert i >= a or a != a


def c14(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert i >= a


def c15(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert i > a


def c16(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    assert i > a or a == i or a != a


def c17(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a == a


def c18(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    assert a == a or a != a


def c19(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a < b or b <= a


def c20(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    assert not (a < b and b <= a)


def c21(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    assert not (a < b and a > b)


def c22(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    assert not (a < b and a == b)


def c23(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    assert (a <= b) == (a < b or a == b)


def c24(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    assert (a >= b) == (b <= a)


def c25(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    assert (a > b) == (b < a)


def c26(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a <= b) == (not (a > b))


def c27(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    assert (a != b) == (not (a == b))


def c28(a: float, b: float) -> None:
    n = float('nan')
    i = float('inf')
    assert not (a < b) or a <= b


def c29(a: float, b: float) -> None:
    Requires(a == a and b == b)
    assert a == a


def c30(a: float, b: float) -> None:
    Requires(a == a and b == b)
    assert a < b or b <= a


def c31(a: float, b: float) -> None:
    Requires(a == a and b == b)
    assert (a <= b) == (not (a > b))


def c32(a: float, b: float) -> None:
    Requires(a == a and b == b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a < b or a > b


def c33(a: float, b: float, c: float) -> None:
    assert not (a == b and b == c) or a == c


def c34(a: float, b: float, c: float) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert not (a < b) or a < c


def c35(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    assert p == i


def c36(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    assert p > 0.0


def c37(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert q == q
