from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar
# case: float_encoding=real





def c0(a: float, b: float, c: float) -> None:
    assert not (a < b and b < c) or a < c


def c1(a: float, b: float, c: float) -> None:
    assert not (a <= b and b <= c) or a <= c


def c2(a: float, b: float, c: float) -> None:
    assert not (a == b and b == c) or a == c


def c3(a: float, b: float, c: float) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert not (a < b) or a < c


def c4(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    assert p == i


def c5(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    assert p > 0.0


def c6(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert q == q


def c7(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    assert q != q


def c8(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert q == 0.0


def c9(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    assert m < 0.0


def c10(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert m == i


def c11(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    assert m < i


def c12(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    assert m <= a or a != a


def c13(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert m < a


def c14(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    assert s == m


def c15(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert s == i


def c16(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    assert t == m


def c17(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t != t


def c18(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    assert u != u


def c19(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert u == 0.0


def c20(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    assert v != v


def c21(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert v == a


def c22(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    assert w != w


def c23(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    assert x != x


def c24(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x == 0.0


def c25(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    assert y == i


def c26(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    assert z == m


def c27(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert z == i


def c28(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    o = m * m
    assert o == i


def c29(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    o = m * m
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert o == m


def c30(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    o = m * m
    l = i * 0.0
    assert l != l


def c31(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    o = m * m
    l = i * 0.0
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert l == 0.0


def c32(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    o = m * m
    l = i * 0.0
    k = 0.0 * i
    assert k != k


def c33(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    o = m * m
    l = i * 0.0
    k = 0.0 * i
    j = -2.0 * i
    assert j == m


def c34(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    o = m * m
    l = i * 0.0
    k = 0.0 * i
    j = -2.0 * i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert j == i
