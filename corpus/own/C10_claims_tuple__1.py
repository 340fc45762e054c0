from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    v = ()
    w = (1, 2, 3, 4, 5, 6)
    x = (1, 2, 3, 4, 5, 6, 7)
    y = (1, 2, 3, 4, 5, 6, 7, 8)
    z = (1, 2, 3, 4, 5, 6, 7, 8, 9)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert z[8] == 8


def c1(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    v = ()
    w = (1, 2, 3, 4, 5, 6)
    x = (1, 2, 3, 4, 5, 6, 7)
    y = (1, 2, 3, 4, 5, 6, 7, 8)
    z = (1, 2, 3, 4, 5, 6, 7, 8, 9)
    assert len(z) == 9


def c2(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    v = ()
    w = (1, 2, 3, 4, 5, 6)
    x = (1, 2, 3, 4, 5, 6, 7)
    y = (1, 2, 3, 4, 5, 6, 7, 8)
    z = (1, 2, 3, 4, 5, 6, 7, 8, 9)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(z) == 6


def c3(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    v = ()
    w = (1, 2, 3, 4, 5, 6)
    x = (1, 2, 3, 4, 5, 6, 7)
    y = (1, 2, 3, 4, 5, 6, 7, 8)
    z = (1, 2, 3, 4, 5, 6, 7, 8, 9)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 1 == 2


def c4(t: Tuple[int, ...], i: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = t[0]


def c5(t: Tuple[int, ...], i: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = t[i]


def c6(t: Tuple[int, ...], i: int) -> None:
    assert len(t) >= 0


def c7(t: Tuple[int, ...], i: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(t) > 0


def c8(t: Tuple[int, ...], i: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 3 in t


def c9(t: Tuple[int, ...], i: int) -> None:
    Requires(len(t) > 1)
    x = t[0]


def c10(t: Tuple[int, ...], i: int) -> None:
    Requires(len(t) > 1)
    x = t[1]


def c11(t: Tuple[int, ...], i: int) -> None:
    Requires(len(t) > 1)
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = t[2]


def c12(t: Tuple[int, ...], i: int) -> None:
    Requires(len(t) > 1)
    x = t[-1]


def c13(t: Tuple[int, ...], i: int) -> None:
    Requires(len(t) > 1)
    x = t[-2]


def c14(t: Tuple[int, ...], i: int) -> None:
    Requires(len(t) > 1)
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = t[-3]


def c15(t: Tuple[int, int]) -> None:
    assert len(t) == 2


def c16(t: Tuple[int, int]) -> None:
    assert t == (t[0], t[1])


def c17(t: Tuple[int, int]) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t == (t[1], t[0])


def c18(t: Tuple[int, int]) -> None:
    a, b = t
    assert a == t[0]


def c19(t: Tuple[int, int]) -> None:
    a, b = t
    assert b == t[1]


def c20(t: Tuple[int, int]) -> None:
    a, b = t
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b == t[0]


def c21(a: int, b: int, c: int) -> None:
    t = (a, b, c)
    u = t[1:]
    assert len(u) == 2


def c22(a: int, b: int, c: int) -> None:
    t = (a, b, c)
    u = t[1:]
    assert u[0] == b


def c23(a: int, b: int, c: int) -> None:
    t = (a, b, c)
    u = t[1:]
    assert u[1] == c


def c24(a: int, b: int, c: int) -> None:
    t = (a, b, c)
    u = t[1:]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert u[1] == b


def c25(a: int, b: int, c: int) -> None:
    t = (a, b, c)
    u = t[1:]
    v = t[:2]
    assert v[0] == a


def c26(a: int, b: int, c: int) -> None:
    t = (a, b, c)
    u = t[1:]
    v = t[:2]
    assert v[1] == b


def c27(a: int, b: int, c: int) -> None:
    t = (a, b, c)
    u = t[1:]
    v = t[:2]
    assert len(v) == 2


def c28(a: int, b: int, c: int) -> None:
    t = (a, b, c)
    u = t[1:]
    v = t[:2]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(v) == 3


def c29(a: int, b: int, c: int) -> None:
    t = (a, b, c)
    u = t[1:]
    v = t[:2]
    w = t[-1:]
    assert w[0] == c


def c30(a: int, b: int, c: int) -> None:
    t = (a, b, c)
    u = t[1:]
    v = t[:2]
    w = t[-1:]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert w[0] == a


def c31(a: int, b: int, c: int) -> None:
    t = (a, b, c)
    u = t[1:]
    v = t[:2]
    w = t[-1:]
    assert len(w) == 1
