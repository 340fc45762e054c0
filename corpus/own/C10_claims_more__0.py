from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b)
    assert len(t) == 6


def c1(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b)
    assert t[0] == a


def c2(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b)
    assert t[1] == b and t[2] == 3


def c3(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b)
    assert t[3] == a and t[4] == 5


def c4(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b)
    assert t[5] == b


def c5(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t[5] == a


def c6(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b)
    assert t[-1] == b


def c7(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b)
    assert t[-6] == a


def c8(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b)
    assert 5 in t


def c9(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(t) == 5


def c10(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b)
    c0, c1, c2, c3, c4, c5 = t
    assert c0 == a and c1 == b and c2 == 3


def c11(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b)
    c0, c1, c2, c3, c4, c5 = t
    assert c3 == a and c4 == 5 and c5 == b


def c12(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b)
    c0, c1, c2, c3, c4, c5 = t
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c4 == c2


def c13(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b, 7)
    assert len(t) == 7


def c14(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b, 7)
    assert t[0] == a and t[1] == b and t[2] == 3


def c15(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b, 7)
    assert t[3] == a and t[4] == 5 and t[5] == b


def c16(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b, 7)
    assert t[6] == 7


def c17(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b, 7)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t[6] == 5


def c18(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b, 7)
    assert t[-7] == a


def c19(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b, 7)
    assert t[-1] == 7


def c20(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b, 7)
    assert a in t


def c21(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b, 7, 8)
    assert len(t) == 8


def c22(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b, 7, 8)
    assert t[0] == a and t[1] == b and t[2] == 3


def c23(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b, 7, 8)
    assert t[6] == 7 and t[7] == 8


def c24(a: int, b: int) -> None:
    t = (a, b, 3, a, 5, b, 7, 8)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t[7] == 7


def c25(a: int, b: str) -> None:
    t = (a, b, a, b, a, b)
    assert t[0] == a and t[1] == b and t[4] == a and t[5] == b


def c26(a: int, b: str) -> None:
    t = (a, b, a, b, a, b)
    assert isinstance(t[5], str)


def c27(a: int, b: str) -> None:
    t = (a, b, a, b, a, b)
    assert t[1] == t[3]


def c28(a: int, b: str) -> None:
    t = (a, b, a, b, a, b)
    assert t[0] == t[2] and t[3] == t[5]


def c29(a: int, b: int) -> None:
    s = (a, b, 1, 2, 3, 4)
    t = (a, b, 1, 2, 3, 4)
    assert s == t


def c30(a: int, b: int) -> None:
    s = (a, b, 1, 2, 3, 4)
    t = (a, b, 1, 2, 3, 4)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert s != t


def c31(a: int, b: int) -> None:
    s = (a, b, 1, 2, 3, 4)
    t = (a, b, 1, 2, 3, 4)
    u = (a, b, 1, 2, 3, 5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert s == u


def c32(a: int, b: int) -> None:
    s = (a, b, 1, 2, 3, 4)
    t = (a, b, 1, 2, 3, 4)
    u = (a, b, 1, 2, 3, 5)
    assert s != u


def c33(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 3)
    q = xs[1:]
    assert len(q) == 2


def c34(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 3)
    q = xs[1:]
    assert q[0] == xs[1]


def c35(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 3)
    q = xs[1:]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert q[0] == xs[0]
