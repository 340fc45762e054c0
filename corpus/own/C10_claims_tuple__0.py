from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int, b: int) -> None:
    t = (a, b, True)
    assert len(t) == 3


def c1(a: int, b: int) -> None:
    t = (a, b, True)
    assert t[0] == a


def c2(a: int, b: int) -> None:
    t = (a, b, True)
    assert t[1] == b


def c3(a: int, b: int) -> None:
    t = (a, b, True)
    assert t[2]


def c4(a: int, b: int) -> None:
    t = (a, b, True)
    assert t[-1]


def c5(a: int, b: int) -> None:
    t = (a, b, True)
    assert t[-3] == a


def c6(a: int, b: int) -> None:
    t = (a, b, True)
    assert t[-2] == b


def c7(a: int, b: int) -> None:
    t = (a, b, True)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t[-2] == a


def c8(a: int, b: int) -> None:
    t = (a, b, True)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(t) == 2


def c9(a: int, b: int) -> None:
    t = (a, b, True)
    assert t == (a, b, True)


def c10(a: int, b: int) -> None:
    t = (a, b, True)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t == (b, a, True)


def c11(a: int, b: int) -> None:
    t = (a, b, True)
    assert t != (a, b)


def c12(a: int, b: int) -> None:
    t = (a, b, True)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t == (a, b)


def c13(a: int, b: int) -> None:
    t = (a, b, True)
    assert a in t


def c14(a: int, b: int) -> None:
    t = (a, b, True)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 5 in t


def c15(a: int, b: int) -> None:
    t = (a,)
    assert len(t) == 1


def c16(a: int, b: int) -> None:
    t = (a,)
    assert t[0] == a


def c17(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    assert u[1][0] == b


def c18(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    assert u[1][1] == a


def c19(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert u[1][1] == b


def c20(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    v = ()
    assert len(v) == 0


def c21(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    v = ()
    w = (1, 2, 3, 4, 5, 6)
    assert w[5] == 6


def c22(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    v = ()
    w = (1, 2, 3, 4, 5, 6)
    assert w[4] == 5


def c23(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    v = ()
    w = (1, 2, 3, 4, 5, 6)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert w[5] == 5


def c24(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    v = ()
    w = (1, 2, 3, 4, 5, 6)
    x = (1, 2, 3, 4, 5, 6, 7)
    assert x[6] == 7


def c25(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    v = ()
    w = (1, 2, 3, 4, 5, 6)
    x = (1, 2, 3, 4, 5, 6, 7)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x[5] == 7


def c26(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    v = ()
    w = (1, 2, 3, 4, 5, 6)
    x = (1, 2, 3, 4, 5, 6, 7)
    y = (1, 2, 3, 4, 5, 6, 7, 8)
    assert y[7] == 8


def c27(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    v = ()
    w = (1, 2, 3, 4, 5, 6)
    x = (1, 2, 3, 4, 5, 6, 7)
    y = (1, 2, 3, 4, 5, 6, 7, 8)
    assert y[6] == 7


def c28(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    v = ()
    w = (1, 2, 3, 4, 5, 6)
    x = (1, 2, 3, 4, 5, 6, 7)
    y = (1, 2, 3, 4, 5, 6, 7, 8)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert y[7] == 7


def c29(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    v = ()
    w = (1, 2, 3, 4, 5, 6)
    x = (1, 2, 3, 4, 5, 6, 7)
    y = (1, 2, 3, 4, 5, 6, 7, 8)
    assert len(y) == 8


def c30(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    v = ()
    w = (1, 2, 3, 4, 5, 6)
    x = (1, 2, 3, 4, 5, 6, 7)
    y = (1, 2, 3, 4, 5, 6, 7, 8)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(y) == 6


def c31(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    v = ()
    w = (1, 2, 3, 4, 5, 6)
    x = (1, 2, 3, 4, 5, 6, 7)
    y = (1, 2, 3, 4, 5, 6, 7, 8)
    z = (1, 2, 3, 4, 5, 6, 7, 8, 9)
    assert z[8] == 9


def c32(a: int, b: int) -> None:
    t = (a,)
    u = (a, (b, a))
    v = ()
    w = (1, 2, 3, 4, 5, 6)
    x = (1, 2, 3, 4, 5, 6, 7)
    y = (1, 2, 3, 4, 5, 6, 7, 8)
    z = (1, 2, 3, 4, 5, 6, 7, 8, 9)
    assert z[7] == 8
