from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


T = TypeVar('T')
V = TypeVar('V')
class G(Generic[T]):
    def __init__(self, v: T) -> None:
        Ensures(Acc(self.v) and self.v is v)
        self.v = v  # type: T

    def get(self) -> T:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v is Old(self.v) and Result() is self.v)
        return self.v

    def put(self, v: T) -> None:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v is v)
        self.v = v

class H(G[int]):
    pass

class P(Generic[T, V]):
    def __init__(self, a: T, b: V) -> None:
        Ensures(Acc(self.a) and self.a is a)
        Ensures(Acc(self.b) and self.b is b)
        self.a = a  # type: T
        self.b = b  # type: V

def ident(x: T) -> T:
    Ensures(Result() is x)
    return x

def first(x: T, y: V) -> T:
    Ensures(Result() is x)
    return x


def c0(a: int, s: str) -> None:
    g = G(a)
    assert g.v == a


def c1(a: int, s: str) -> None:
    g = G(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert g.v == 0


def c2(a: int, s: str) -> None:
    g = G(a)
    assert g.get() == a


def c3(a: int, s: str) -> None:
    g = G(a)
    assert isinstance(g, G)


def c4(a: int, s: str) -> None:
    g = G(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(g, H)


def c5(a: int, s: str) -> None:
    g = G(a)
    assert isinstance(g.v, int)


def c6(a: int, s: str) -> None:
    g = G(a)
    g.put(3)
    assert g.v == 3


def c7(a: int, s: str) -> None:
    g = G(a)
    g.put(3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert g.get() == a


def c8(a: int, s: str) -> None:
    g = G(a)
    g.put(3)
    h = H(4)
    assert isinstance(h, G)


def c9(a: int, s: str) -> None:
    g = G(a)
    g.put(3)
    h = H(4)
    assert h.get() == 4


def c10(a: int, s: str) -> None:
    g = G(a)
    g.put(3)
    h = H(4)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert h.get() == 5


def c11(a: int, s: str) -> None:
    g = G(a)
    g.put(3)
    h = H(4)
    assert isinstance(h.v, int)


def c12(a: int, s: str) -> None:
    g = G(a)
    g.put(3)
    h = H(4)
    k = G(s)
    assert k.v == s


def c13(a: int, s: str) -> None:
    g = G(a)
    g.put(3)
    h = H(4)
    k = G(s)
    assert k.get() == s


def c14(a: int, s: str) -> None:
    g = G(a)
    g.put(3)
    h = H(4)
    k = G(s)
    assert isinstance(k.v, str)


def c15(a: int, s: str) -> None:
    g = G(a)
    g.put(3)
    h = H(4)
    k = G(s)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(k.v, int)


def c16(a: int, s: str) -> None:
    g = G(a)
    g.put(3)
    h = H(4)
    k = G(s)
    assert g.v == 3


def c17(a: int, s: str) -> None:
    p = P(a, s)
    assert p.a == a


def c18(a: int, s: str) -> None:
    p = P(a, s)
    assert p.b == s


def c19(a: int, s: str) -> None:
    p = P(a, s)
    assert isinstance(p.a, int)


def c20(a: int, s: str) -> None:
    p = P(a, s)
    assert isinstance(p.b, str)
