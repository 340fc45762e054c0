from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class A:
    pass
class B(A):
    pass
class C:
    pass


def c0(x: Optional[str]) -> None:
    n = 0
    if x:
        n = len(x)
    y = x or 'dflt'
    z = x if x is not None else 'q'
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert z == 'q'


def c1(a: int, b: bool) -> None:
    x: Union[int, str] = a
    assert isinstance(x, int)


def c2(a: int, b: bool) -> None:
    x: Union[int, str] = a
    assert x == a


def c3(a: int, b: bool) -> None:
    x: Union[int, str] = a
    if b:
        x = 's'
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(x, int)


def c4(a: int, b: bool) -> None:
    x: Union[int, str] = a
    if b:
        x = 's'
    assert b or isinstance(x, int)


def c5(a: int, b: bool) -> None:
    x: Union[int, str] = a
    if b:
        x = 's'
    assert not b or isinstance(x, str)


def c6(a: int, b: bool) -> None:
    x: Union[int, str] = a
    if b:
        x = 's'
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(x, str)


def c7(a: int, b: bool) -> None:
    x: Union[int, str] = a
    if b:
        x = 's'
    assert isinstance(x, int) or isinstance(x, str)


def c8(a: int, b: bool) -> None:
    x: Union[int, str] = a
    if b:
        x = 's'
    w: Optional[int] = None
    if b:
        w = a
    assert b or w is None


def c9(a: int, b: bool) -> None:
    x: Union[int, str] = a
    if b:
        x = 's'
    w: Optional[int] = None
    if b:
        w = a
    assert not b or w == a


def c10(a: int, b: bool) -> None:
    x: Union[int, str] = a
    if b:
        x = 's'
    w: Optional[int] = None
    if b:
        w = a
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert w is None


def c11(a: int, b: bool) -> None:
    x: Union[int, str] = a
    if b:
        x = 's'
    w: Optional[int] = None
    if b:
        w = a
    #:: ExpectedOutput(application.precondition:assertion.false)
    assert w == a


def c12(a: int, b: bool) -> None:
    r = a and 3
    assert a == 0 or r == 3


def c13(a: int, b: bool) -> None:
    r = a and 3
    assert a != 0 or r == 0


def c14(a: int, b: bool) -> None:
    r = a and 3
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 3


def c15(a: int, b: bool) -> None:
    r = a and 3
    s = a or 3
    assert a != 0 or s == 3


def c16(a: int, b: bool) -> None:
    r = a and 3
    s = a or 3
    assert a == 0 or s == a


def c17(a: int, b: bool) -> None:
    r = a and 3
    s = a or 3
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert s == 3


def c18(a: int, b: bool) -> None:
    r = a and 3
    s = a or 3
    t = b and a
    assert not b or t == a


def c19(a: int, b: bool) -> None:
    r = a and 3
    s = a or 3
    t = b and a
    assert b or t == False


def c20(a: int, b: bool) -> None:
    r = a and 3
    s = a or 3
    t = b and a
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t == a


def c21(a: int, b: bool) -> None:
    r = a and 3
    s = a or 3
    t = b and a
    u = a or b
    assert a == 0 or u == a


def c22(a: int, b: bool) -> None:
    r = a and 3
    s = a or 3
    t = b and a
    u = a or b
    assert a != 0 or u == b


def c23(a: int, b: bool) -> None:
    r = a and 3
    s = a or 3
    t = b and a
    u = a or b
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert u == b


def c24(a: int, b: bool) -> None:
    r = a and 3
    s = a or 3
    t = b and a
    u = a or b
    v = not a
    assert v == (a == 0)


def c25(a: int, b: bool) -> None:
    r = a and 3
    s = a or 3
    t = b and a
    u = a or b
    v = not a
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert v
