from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


T = TypeVar('T')
V = TypeVar('V')
class G(Generic[T]):
    def __init__(self, v: T) -> None:
        Ensures(Acc(self.v) and self.v is v)
        self.v = v  # type: T

    def get(self) -> T:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v is Old(self.v) and Result() is self.v)
        return self.v

    def put(self, v: T) -> None:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v is v)
        self.v = v

class H(G[int]):
    pass

class P(Generic[T, V]):
    def __init__(self, a: T, b: V) -> None:
        Ensures(Acc(self.a) and self.a is a)
        Ensures(Acc(self.b) and self.b is b)
        self.a = a  # type: T
        self.b = b  # type: V

def ident(x: T) -> T:
    Ensures(Result() is x)
    return x

def first(x: T, y: V) -> T:
    Ensures(Result() is x)
    return x


def c0(a: int, s: str) -> None:
    p = P(a, s)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(p.b, int)


def c1(a: int, s: str) -> None:
    p = P(a, s)
    q = P(s, a)
    assert q.a == s


def c2(a: int, s: str) -> None:
    p = P(a, s)
    q = P(s, a)
    assert q.b == a


def c3(a: int, s: str) -> None:
    p = P(a, s)
    q = P(s, a)
    assert isinstance(q.b, int)


def c4(a: int, s: str) -> None:
    p = P(a, s)
    q = P(s, a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(q.a, int)


def c5(a: int, s: str) -> None:
    p = P(a, s)
    q = P(s, a)
    assert p is not q


def c6(a: int, s: str) -> None:
    assert isinstance(first(a, s), int)


def c7(a: int, s: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(first(s, a), int)


def c8(a: int, o: object) -> None:
    xs = [a]
    g = G(xs)
    assert g.v is xs


def c9(a: int, o: object) -> None:
    xs = [a]
    g = G(xs)
    assert len(g.v) == 1


def c10(a: int, o: object) -> None:
    xs = [a]
    g = G(xs)
    assert g.v[0] == a


def c11(a: int, o: object) -> None:
    xs = [a]
    g = G(xs)
    g.v.append(2)
    assert len(xs) == 2


def c12(a: int, o: object) -> None:
    xs = [a]
    g = G(xs)
    g.v.append(2)
    assert xs[1] == 2


def c13(a: int, o: object) -> None:
    xs = [a]
    g = G(xs)
    g.v.append(2)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(xs) == 1


def c14(a: int, o: object) -> None:
    xs = [a]
    g = G(xs)
    g.v.append(2)
    m = G(o)
    assert m.v is o


def c15(a: int, o: object) -> None:
    xs = [a]
    g = G(xs)
    g.v.append(2)
    m = G(o)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(m.v, int)
