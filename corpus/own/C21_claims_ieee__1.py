from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar
# case: float_encoding=ieee32





def c0(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    assert q != q


def c1(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert q == 0.0


def c2(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    assert m < 0.0


def c3(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert m == i


def c4(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    assert m < i


def c5(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    assert m <= a or a != a


def c6(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert m < a


def c7(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    assert s == m


def c8(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert s == i


def c9(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    assert t == m


def c10(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t != t


def c11(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    assert u != u


def c12(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert u == 0.0


def c13(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    assert v != v


def c14(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert v == a


def c15(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    assert w != w


def c16(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    assert x != x


def c17(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x == 0.0


def c18(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    assert y == i


def c19(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    assert z == m


def c20(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert z == i


def c21(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    o = m * m
    assert o == i


def c22(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    o = m * m
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert o == m


def c23(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    o = m * m
    l = i * 0.0
    assert l != l


def c24(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    o = m * m
    l = i * 0.0
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert l == 0.0


def c25(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    o = m * m
    l = i * 0.0
    k = 0.0 * i
    assert k != k


def c26(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    o = m * m
    l = i * 0.0
    k = 0.0 * i
    j = -2.0 * i
    assert j == m


def c27(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    o = m * m
    l = i * 0.0
    k = 0.0 * i
    j = -2.0 * i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert j == i


def c28(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    o = m * m
    l = i * 0.0
    k = 0.0 * i
    j = -2.0 * i
    h = m * -2.0
    assert h == i


def c29(a: float) -> None:
    i = float('inf')
    m = 0.0 - i
    d = i / i
    assert d != d


def c30(a: float) -> None:
    i = float('inf')
    m = 0.0 - i
    d = i / i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert d == 1.0


def c31(a: float) -> None:
    i = float('inf')
    m = 0.0 - i
    d = i / i
    e = i / 2.0
    assert e == i


def c32(a: float) -> None:
    i = float('inf')
    m = 0.0 - i
    d = i / i
    e = i / 2.0
    f = 2.0 / i
    assert f == 0.0


def c33(a: float) -> None:
    i = float('inf')
    m = 0.0 - i
    d = i / i
    e = i / 2.0
    f = 2.0 / i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert f > 0.0


def c34(a: float) -> None:
    i = float('inf')
    m = 0.0 - i
    d = i / i
    e = i / 2.0
    f = 2.0 / i
    g = i / -2.0
    assert g == m


def c35(a: float) -> None:
    i = float('inf')
    m = 0.0 - i
    d = i / i
    e = i / 2.0
    f = 2.0 / i
    g = i / -2.0
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert g == i


def c36(a: float) -> None:
    i = float('inf')
    m = 0.0 - i
    d = i / i
    e = i / 2.0
    f = 2.0 / i
    g = i / -2.0
    h = m / -2.0
    assert h == i


def c37(a: float) -> None:
    i = float('inf')
    m = 0.0 - i
    d = i / i
    e = i / 2.0
    f = 2.0 / i
    g = i / -2.0
    h = m / -2.0
    n = float('nan') / 2.0
    assert n != n


def c38(a: float) -> None:
    i = float('inf')
    n = -i
    assert n < 0.0
