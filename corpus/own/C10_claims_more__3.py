from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(xs: List[int], a: int) -> None:
    Requires(list_pred(xs))
    Requires(a in xs)
    i = xs.index(a)
    assert i < len(xs)


def c1(xs: List[int], a: int) -> None:
    Requires(list_pred(xs))
    Requires(a in xs)
    i = xs.index(a)
    assert xs[i] == a


def c2(xs: List[int], a: int) -> None:
    Requires(list_pred(xs))
    Requires(a in xs)
    i = xs.index(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert i == 0


def c3(xs: List[int], a: int) -> None:
    Requires(list_pred(xs))
    Requires(a in xs)
    i = xs.index(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert i == len(xs) - 1


def c4(xs: List[int], a: int) -> None:
    Requires(list_pred(xs))
    #:: ExpectedOutput(application.precondition:assertion.false)
    i = xs.index(a)


def c5(xs: Optional[List[int]]) -> None:
    w = 0
    if xs is None:
        w = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert w == 1


def c6(xs: Optional[List[int]]) -> None:
    w = 0
    if xs is None:
        w = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert w == 0


def c7(a: str, b: str) -> None:
    assert (a == b) == (b == a)


def c8(a: str, b: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a == b


def c9(a: str, b: str) -> None:
    assert a != b or len(a) == len(b)


def c10(a: str, b: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(a) == len(b)


def c11(a: str, b: str) -> None:
    assert a != b or a + b == b + a


def c12(a: str, b: str) -> None:
    assert len(a + b) == len(a) + len(b)


def c13(a: str, b: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a + b == b + a


def c14(a: bool, b: bool) -> None:
    assert (a and b) == (b and a)


def c15(a: bool, b: bool) -> None:
    c = a & b
    o = a | b
    x = a ^ b
    assert c == (a and b)


def c16(a: bool, b: bool) -> None:
    c = a & b
    o = a | b
    x = a ^ b
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c == a


def c17(a: bool, b: bool) -> None:
    c = a & b
    o = a | b
    x = a ^ b
    assert o == (a or b)


def c18(a: bool, b: bool) -> None:
    c = a & b
    o = a | b
    x = a ^ b
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert o == b


def c19(a: bool, b: bool) -> None:
    c = a & b
    o = a | b
    x = a ^ b
    assert x == (a != b)


def c20(a: bool, b: bool) -> None:
    c = a & b
    o = a | b
    x = a ^ b
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x == a


def c21(a: bool, b: bool) -> None:
    c = a & b
    o = a | b
    x = a ^ b
    assert isinstance(c, bool)


def c22(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 2)
    q = sorted(xs)
    assert q[0] <= q[1]


def c23(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 2)
    q = sorted(xs)
    assert len(q) == 2


def c24(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 2)
    q = sorted(xs)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert q[0] == xs[0]


def c25(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 2)
    q = sorted(xs)
    assert len(xs) == 2


def c26(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 2)
    q = sorted(xs)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert q is xs


def c27(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 3)
    q = sorted(xs)
    assert q[0] <= q[2]


def c28(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 3)
    q = sorted(xs)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert q[1] <= q[0]


def c29(xs: List[int]) -> None:
    Requires(list_pred(xs))
    q = xs[1:]
    assert len(q) == 0 or q[0] == xs[1]


def c30(xs: List[int]) -> None:
    Requires(list_pred(xs))
    q = xs[1:]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(q) == len(xs) - 1


def c31(xs: List[int]) -> None:
    Requires(list_pred(xs))
    q = xs[1:]
    assert len(q) < len(xs) or len(xs) == 0


def c32(xs: List[int]) -> None:
    Requires(list_pred(xs))
    q = xs[1:]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert q is xs
