from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 3)
    q = xs[:2]
    assert len(q) == 2


def c1(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 3)
    q = xs[:2]
    assert q[1] == xs[1]


def c2(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 3)
    q = xs[1:2]
    assert len(q) == 1


def c3(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 3)
    q = xs[0:5]
    assert len(q) == 3


def c4(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 3)
    q = xs[0:5]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(q) == 5


def c5(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 3)
    q = xs[2:1]
    assert len(q) == 0


def c6(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 3)
    q = xs[-1:]
    assert len(q) == 1


def c7(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 3)
    q = xs[:-1]
    assert len(q) == 2


def c8(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 3)
    q = xs[-2:]
    assert q[0] == xs[1]


def c9(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 3)
    q = xs[-5:]
    assert len(q) == 3


def c10(b: bytes) -> None:
    Requires(len(b) == 3)
    assert len(b * 2) == 6


def c11(b: bytes) -> None:
    Requires(len(b) == 3)
    assert (b * 2)[3] == b[0]


def c12(b: bytes) -> None:
    Requires(len(b) == 3)
    assert (b * 2)[4] == b[1]


def c13(b: bytes) -> None:
    Requires(len(b) == 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (b * 2)[3] == b[1]


def c14(b: bytes) -> None:
    Requires(len(b) == 3)
    assert len(b * 0) == 0


def c15(b: bytes) -> None:
    Requires(len(b) == 3)
    assert len(b + b) == 6


def c16(b: bytes) -> None:
    Requires(len(b) == 3)
    assert (b + b)[5] == b[2]


def c17(b: bytes) -> None:
    Requires(len(b) == 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (b + b)[3] == b[1]


def c18(b: bytes) -> None:
    Requires(len(b) == 3)
    q = b[1:]
    assert len(q) == 2


def c19(b: bytes) -> None:
    Requires(len(b) == 3)
    q = b[1:]
    assert q[0] == b[1]


def c20(b: bytes) -> None:
    Requires(len(b) == 3)
    q = b[1:]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert q[0] == b[0]


def c21(b: bytes) -> None:
    Requires(len(b) == 3)
    q = b[:2]
    assert len(q) == 2


def c22(b: bytes) -> None:
    Requires(len(b) == 3)
    q = b[1:2]
    assert len(q) == 1


def c23(b: bytes) -> None:
    Requires(len(b) == 3)
    q = b[2:1]
    assert len(q) == 0


def c24(b: bytes) -> None:
    Requires(len(b) == 3)
    q = b[-2:]
    assert len(q) == 2


def c25(b: bytes) -> None:
    Requires(len(b) == 3)
    q = b[:-1]
    assert len(q) == 2


def c26() -> None:
    b = b'abc'
    assert len(b) == 3


def c27() -> None:
    b = b'abc'
    assert b[0] == 97


def c28() -> None:
    b = b'abc'
    assert b[2] == 99


def c29() -> None:
    b = b'abc'
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b[1] == 97


def c30() -> None:
    b = b'abc'
    assert b == b'abc'
