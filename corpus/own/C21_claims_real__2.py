from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar
# case: float_encoding=real





def c0(a: float) -> None:
    i = float('inf')
    n = float('nan')
    p = i + i
    q = i - i
    m = 0.0 - i
    s = m + m
    t = m - i
    u = m + i
    v = n + a
    w = a - n
    x = n * a
    y = i * 2.0
    z = i * m
    o = m * m
    l = i * 0.0
    k = 0.0 * i
    j = -2.0 * i
    h = m * -2.0
    assert h == i


def c1(a: float) -> None:
    i = float('inf')
    m = 0.0 - i
    d = i / i
    assert d != d


def c2(a: float) -> None:
    i = float('inf')
    m = 0.0 - i
    d = i / i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert d == 1.0


def c3(a: float) -> None:
    i = float('inf')
    m = 0.0 - i
    d = i / i
    e = i / 2.0
    assert e == i


def c4(a: float) -> None:
    i = float('inf')
    m = 0.0 - i
    d = i / i
    e = i / 2.0
    f = 2.0 / i
    assert f == 0.0


def c5(a: float) -> None:
    i = float('inf')
    m = 0.0 - i
    d = i / i
    e = i / 2.0
    f = 2.0 / i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert f > 0.0


def c6(a: float) -> None:
    i = float('inf')
    m = 0.0 - i
    d = i / i
    e = i / 2.0
    f = 2.0 / i
    g = i / -2.0
    assert g == m


def c7(a: float) -> None:
    i = float('inf')
    m = 0.0 - i
    d = i / i
    e = i / 2.0
    f = 2.0 / i
    g = i / -2.0
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert g == i


def c8(a: float) -> None:
    i = float('inf')
    m = 0.0 - i
    d = i / i
    e = i / 2.0
    f = 2.0 / i
    g = i / -2.0
    h = m / -2.0
    assert h == i


def c9(a: float) -> None:
    i = float('inf')
    m = 0.0 - i
    d = i / i
    e = i / 2.0
    f = 2.0 / i
    g = i / -2.0
    h = m / -2.0
    n = float('nan') / 2.0
    assert n != n


def c10(a: float) -> None:
    i = float('inf')
    n = -i
    assert n < 0.0


def c11(a: float) -> None:
    i = float('inf')
    n = -i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert n == i


def c12(a: float) -> None:
    i = float('inf')
    n = -i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert n + i == n + i


def c13(a: float) -> None:
    i = float('inf')
    n = -i
    z = float('nan')
    y = -z
    assert y != y


def c14(a: float) -> None:
    i = float('inf')
    n = -i
    z = float('nan')
    y = -z
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert y == z


def c15(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    assert r == 1


def c16(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 0


def c17(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    s = 0
    if n:
        s = 1
    assert s == 1


def c18(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    s = 0
    if n:
        s = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert s == 0


def c19(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    s = 0
    if n:
        s = 1
    t = 0
    if 0.0:
        t = 1
    assert t == 0


def c20(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    s = 0
    if n:
        s = 1
    t = 0
    if 0.0:
        t = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t == 1


def c21(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    s = 0
    if n:
        s = 1
    t = 0
    if 0.0:
        t = 1
    u = 0
    if -0.0:
        u = 1
    assert u == 0


def c22(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    s = 0
    if n:
        s = 1
    t = 0
    if 0.0:
        t = 1
    u = 0
    if -0.0:
        u = 1
    v = 0
    if 0.5:
        v = 1
    assert v == 1


def c23(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    s = 0
    if n:
        s = 1
    t = 0
    if 0.0:
        t = 1
    u = 0
    if -0.0:
        u = 1
    v = 0
    if 0.5:
        v = 1
    w = 0
    if a:
        w = 1
    assert (w == 1) == (a != 0.0)


def c24(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    s = 0
    if n:
        s = 1
    t = 0
    if 0.0:
        t = 1
    u = 0
    if -0.0:
        u = 1
    v = 0
    if 0.5:
        v = 1
    w = 0
    if a:
        w = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert w == 1


def c25(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    s = 0
    if n:
        s = 1
    t = 0
    if 0.0:
        t = 1
    u = 0
    if -0.0:
        u = 1
    v = 0
    if 0.5:
        v = 1
    w = 0
    if a:
        w = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert w == 0


def c26(a: Optional[float]) -> None:
    w = 0
    if a:
        w = 1
    assert w == 0 or a is not None


def c27(a: Optional[float]) -> None:
    w = 0
    if a:
        w = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert w == 1 or a is None


def c28(a: Optional[float]) -> None:
    w = 0
    if a:
        w = 1
    assert a is not None or w == 0


def c29() -> None:
    assert 1.5 + 1.0 == 2.5


def c30() -> None:
    assert 1.5 - 2.5 == -1.0


def c31() -> None:
    assert 1.5 * 2.0 == 3.0


def c32() -> None:
    assert 3.0 / 2.0 == 1.5


def c33() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 1.5 + 1.0 == 3.5


def c34() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 3.0 / 2.0 == 1.0
