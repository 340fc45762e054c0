from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class A:
    def __init__(self) -> None:
        pass

    @Pure
    def k(self) -> int:
        Ensures(Result() >= 1)
        return 1

    def m(self) -> int:
        Ensures(Result() >= 10)
        return 10

class B(A):
    def m(self) -> int:
        Ensures(Result() >= 20)
        return 20

class C(B):
    def m(self) -> int:
        Ensures(Result() >= 30)
        return 30

class D(A):
    @Pure
    def __eq__(self, other: object) -> bool:
        return True

class E:
    pass


def c0() -> None:
    a = A()
    assert isinstance(a, A)


def c1() -> None:
    a = A()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(a, B)


def c2() -> None:
    a = A()
    assert isinstance(a, object)


def c3() -> None:
    a = A()
    b = B()
    assert isinstance(b, A)


def c4() -> None:
    a = A()
    b = B()
    assert isinstance(b, B)


def c5() -> None:
    a = A()
    b = B()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(b, C)


def c6() -> None:
    a = A()
    b = B()
    assert not isinstance(b, D)


def c7() -> None:
    a = A()
    b = B()
    assert type(b) == B


def c8() -> None:
    a = A()
    b = B()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert type(b) == A


def c9() -> None:
    a = A()
    b = B()
    assert type(b) != A


def c10() -> None:
    a = A()
    b = B()
    c = C()
    assert isinstance(c, A)


def c11() -> None:
    a = A()
    b = B()
    c = C()
    assert isinstance(c, B)


def c12() -> None:
    a = A()
    b = B()
    c = C()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(c, D)


def c13() -> None:
    a = A()
    b = B()
    c = C()
    d = D()
    assert isinstance(d, A)


def c14() -> None:
    a = A()
    b = B()
    c = C()
    d = D()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(d, B)


def c15() -> None:
    a = A()
    b = B()
    c = C()
    d = D()
    assert not isinstance(d, B)


def c16(x: int, b: bool, s: str) -> None:
    assert isinstance(x, int)


def c17(x: int, b: bool, s: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(x, bool)


def c18(x: int, b: bool, s: str) -> None:
    assert isinstance(b, int)


def c19(x: int, b: bool, s: str) -> None:
    assert isinstance(b, bool)


def c20(x: int, b: bool, s: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(x, str)


def c21(x: int, b: bool, s: str) -> None:
    assert isinstance(s, str)


def c22(x: int, b: bool, s: str) -> None:
    assert not isinstance(s, int)


def c23(x: int, b: bool, s: str) -> None:
    assert isinstance(x, object)


def c24(x: int, b: bool, s: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert type(b) == int


def c25(x: int, b: bool, s: str) -> None:
    t = (x, s)
    assert isinstance(t, tuple)


def c26(x: int, b: bool, s: str) -> None:
    t = (x, s)
    assert isinstance(t[0], int)


def c27(x: int, b: bool, s: str) -> None:
    t = (x, s)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(t[1], int)


def c28(o: object) -> None:
    assert isinstance(o, object)
