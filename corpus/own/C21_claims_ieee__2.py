from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar
# case: float_encoding=ieee32





def c0(a: float) -> None:
    i = float('inf')
    n = -i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert n == i


def c1(a: float) -> None:
    i = float('inf')
    n = -i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert n + i == n + i


def c2(a: float) -> None:
    i = float('inf')
    n = -i
    z = float('nan')
    y = -z
    assert y != y


def c3(a: float) -> None:
    i = float('inf')
    n = -i
    z = float('nan')
    y = -z
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert y == z


def c4(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    assert r == 1


def c5(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 0


def c6(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    s = 0
    if n:
        s = 1
    assert s == 1


def c7(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    s = 0
    if n:
        s = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert s == 0


def c8(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    s = 0
    if n:
        s = 1
    t = 0
    if 0.0:
        t = 1
    assert t == 0


def c9(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    s = 0
    if n:
        s = 1
    t = 0
    if 0.0:
        t = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t == 1


def c10(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    s = 0
    if n:
        s = 1
    t = 0
    if 0.0:
        t = 1
    u = 0
    if -0.0:
        u = 1
    assert u == 0


def c11(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    s = 0
    if n:
        s = 1
    t = 0
    if 0.0:
        t = 1
    u = 0
    if -0.0:
        u = 1
    v = 0
    if 0.5:
        v = 1
    assert v == 1


def c12(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    s = 0
    if n:
        s = 1
    t = 0
    if 0.0:
        t = 1
    u = 0
    if -0.0:
        u = 1
    v = 0
    if 0.5:
        v = 1
    w = 0
    if a:
        w = 1
    assert (w == 1) == (a != 0.0)


def c13(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    s = 0
    if n:
        s = 1
    t = 0
    if 0.0:
        t = 1
    u = 0
    if -0.0:
        u = 1
    v = 0
    if 0.5:
        v = 1
    w = 0
    if a:
        w = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert w == 1


def c14(a: float) -> None:
    i = float('inf')
    n = float('nan')
    r = 0
    if i:
        r = 1
    s = 0
    if n:
        s = 1
    t = 0
    if 0.0:
        t = 1
    u = 0
    if -0.0:
        u = 1
    v = 0
    if 0.5:
        v = 1
    w = 0
    if a:
        w = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert w == 0


def c15(a: Optional[float]) -> None:
    w = 0
    if a:
        w = 1
    assert w == 0 or a is not None


def c16(a: Optional[float]) -> None:
    w = 0
    if a:
        w = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert w == 1 or a is None


def c17(a: Optional[float]) -> None:
    w = 0
    if a:
        w = 1
    assert a is not None or w == 0


def c18() -> None:
    assert 1.5 + 1.0 == 2.5


def c19() -> None:
    assert 1.5 - 2.5 == -1.0


def c20() -> None:
    assert 1.5 * 2.0 == 3.0


def c21() -> None:
    assert 3.0 / 2.0 == 1.5


def c22() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 1.5 + 1.0 == 3.5


def c23() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 3.0 / 2.0 == 1.0


def c24() -> None:
    assert 1.5 < 2.5


def c25() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 2.5 < 1.5


def c26() -> None:
    assert 1.5 <= 1.5


def c27() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 1.5 < 1.5


def c28() -> None:
    assert 1.5 >= 1.5


def c29() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 1.5 > 1.5


def c30() -> None:
    assert -1.5 < 1.5


def c31() -> None:
    assert -1.5 == 0.0 - 1.5


def c32() -> None:
    assert 0.0 == -0.0


def c33() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 1.5 == 1.25


def c34() -> None:
    assert 0.5 != 0.25


def c35() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 1.5 - 0.5 == 0.5 - 1.5


def c36() -> None:
    assert 1.0 / 4.0 == 0.25


def c37() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 4.0 / 1.0 == 0.25


def c38(a: float) -> None:
    Requires(a == 2.5)
    assert a + a == 5.0
