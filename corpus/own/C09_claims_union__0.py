from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class A:
    pass
class B(A):
    pass
class C:
    pass


def c0(o: object) -> None:
    assert isinstance(o, A) or not isinstance(o, B)


def c1(o: object) -> None:
    assert not isinstance(o, B) or isinstance(o, A)


def c2(o: object) -> None:
    assert not (isinstance(o, A) and isinstance(o, C))


def c3(o: object) -> None:
    assert not (isinstance(o, C) and isinstance(o, B))


def c4(o: object) -> None:
    assert not (isinstance(o, A) and isinstance(o, int))


def c5(o: object) -> None:
    assert not (isinstance(o, int) and isinstance(o, str))


def c6(o: object) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert not (isinstance(o, bool) and isinstance(o, int))


def c7(o: object) -> None:
    assert not (isinstance(o, A) and o is None)


def c8(x: Optional[str]) -> None:
    assert x is None or isinstance(x, str)


def c9(x: Optional[str]) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x is not None


def c10(x: Optional[str]) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x is None


def c11(x: Optional[str]) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(x, str)


def c12(x: Optional[str]) -> None:
    n = 0
    if x:
        n = len(x)
    assert n >= 0


def c13(x: Optional[str]) -> None:
    n = 0
    if x:
        n = len(x)
    assert n == 0 or x is not None


def c14(x: Optional[str]) -> None:
    n = 0
    if x:
        n = len(x)
    assert x is None or n == len(x)


def c15(x: Optional[str]) -> None:
    n = 0
    if x:
        n = len(x)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert n > 0


def c16(x: Optional[str]) -> None:
    n = 0
    if x:
        n = len(x)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x is None or n == 0


def c17(x: Optional[str]) -> None:
    n = 0
    if x:
        n = len(x)
    y = x or 'dflt'
    assert y != ''


def c18(x: Optional[str]) -> None:
    n = 0
    if x:
        n = len(x)
    y = x or 'dflt'
    assert y == 'dflt' or x is not None


def c19(x: Optional[str]) -> None:
    n = 0
    if x:
        n = len(x)
    y = x or 'dflt'
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert y == x


def c20(x: Optional[str]) -> None:
    n = 0
    if x:
        n = len(x)
    y = x or 'dflt'
    z = x if x is not None else 'q'
    assert x is None or z == x


def c21(x: Optional[str]) -> None:
    n = 0
    if x:
        n = len(x)
    y = x or 'dflt'
    z = x if x is not None else 'q'
    assert x is not None or z == 'q'
