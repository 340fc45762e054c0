from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class A:
    K = 5
    def __init__(self, a: int) -> None:
        Ensures(Acc(self.a) and self.a == a)
        self.a = a  # type: int

    @staticmethod
    def st(x: int) -> int:
        Ensures(Result() == x + 1)
        return x + 1

    def get(self) -> int:
        Requires(Acc(self.a))
        Ensures(Acc(self.a) and self.a == Old(self.a) and Result() == self.a)
        return self.a

    def set_a(self, v: int) -> None:
        Requires(Acc(self.a))
        Ensures(Acc(self.a) and self.a == v)
        self.a = v

class B(A):
    def __init__(self, a: int, b: int) -> None:
        Ensures(Acc(self.a) and self.a == a + 1)
        Ensures(Acc(self.b) and self.b == b)
        super().__init__(a + 1)
        self.b = b  # type: int

    def both(self) -> int:
        Requires(Acc(self.a) and Acc(self.b))
        Ensures(Acc(self.a) and Acc(self.b))
        Ensures(self.a == Old(self.a) and self.b == Old(self.b))
        Ensures(Result() == self.a + self.b)
        return super().get() + self.b

class C(A):
    def extra(self) -> int:
        Requires(Acc(self.a))
        Ensures(Acc(self.a) and self.a == Old(self.a) * 2)
        self.set_a(self.get() * 2)
        return 0
class M:
    @classmethod
    def cl(cls, x: int) -> int:
        Ensures(Result() == x + 2)
        return x + 2

    @classmethod
    def mk(cls) -> 'M':
        Ensures(isinstance(Result(), M))
        return cls()

class N(M):
    pass


def c0(x: int) -> None:
    a = A(1)
    b = a
    b.set_a(x)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a.a == 1


def c1(x: int) -> None:
    a = A(1)
    b = a
    b.set_a(x)
    assert a is b


def c2(x: int) -> None:
    a = A(1)
    b = a
    b.set_a(x)
    c = A(1)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a is c


def c3(x: int) -> None:
    a = A(1)
    b = a
    b.set_a(x)
    c = A(1)
    assert c.a == 1


def c4(x: int) -> None:
    a = A(1)
    b = a
    b.set_a(x)
    c = A(1)
    c.a, a.a = a.a, c.a
    assert a.a == 1


def c5(x: int) -> None:
    a = A(1)
    b = a
    b.set_a(x)
    c = A(1)
    c.a, a.a = a.a, c.a
    assert c.a == x


def c6(x: int) -> None:
    a = A(1)
    b = a
    b.set_a(x)
    c = A(1)
    c.a, a.a = a.a, c.a
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c.a == 1


def c7(x: int) -> None:
    a = A(1)
    b = a
    b.set_a(x)
    c = A(1)
    c.a, a.a = a.a, c.a
    d = B(x, x)
    e: A = d
    e.set_a(9)
    assert d.a == 9


def c8(x: int) -> None:
    a = A(1)
    b = a
    b.set_a(x)
    c = A(1)
    c.a, a.a = a.a, c.a
    d = B(x, x)
    e: A = d
    e.set_a(9)
    assert d.b == x


def c9(x: int) -> None:
    a = A(1)
    b = a
    b.set_a(x)
    c = A(1)
    c.a, a.a = a.a, c.a
    d = B(x, x)
    e: A = d
    e.set_a(9)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert d.b == 9


def c10(x: int) -> None:
    a = A(1)
    b = a
    b.set_a(x)
    c = A(1)
    c.a, a.a = a.a, c.a
    d = B(x, x)
    e: A = d
    e.set_a(9)
    assert isinstance(e, B)


def c11(x: int) -> None:
    xs = [A(1), A(2)]
    p = xs[0]
    p.a = 5
    assert xs[0].a == 5


def c12(x: int) -> None:
    xs = [A(1), A(2)]
    p = xs[0]
    p.a = 5
    assert xs[1].a == 2


def c13(x: int) -> None:
    xs = [A(1), A(2)]
    p = xs[0]
    p.a = 5
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[1].a == 5


def c14(x: int) -> None:
    xs = [A(1), A(2)]
    p = xs[0]
    p.a = 5
    q = xs[1]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert p is q


def c15(x: int) -> None:
    xs = [A(1), A(2)]
    p = xs[0]
    p.a = 5
    q = xs[1]
    ys = xs
    ys[0] = q
    assert xs[0] is q


def c16(x: int) -> None:
    xs = [A(1), A(2)]
    p = xs[0]
    p.a = 5
    q = xs[1]
    ys = xs
    ys[0] = q
    assert xs[0].a == 2


def c17(x: int) -> None:
    xs = [A(1), A(2)]
    p = xs[0]
    p.a = 5
    q = xs[1]
    ys = xs
    ys[0] = q
    assert p.a == 5


def c18(x: int) -> None:
    assert M.cl(x) == x + 2


def c19(x: int) -> None:
    assert N.cl(x) == x + 2


def c20(x: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert N.cl(x) == x


def c21(x: int) -> None:
    m = M()
    assert m.cl(3) == 5


def c22(x: int) -> None:
    m = M()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert m.cl(3) == 4


def c23(x: int) -> None:
    m = M()
    n = N.mk()
    assert isinstance(n, M)


def c24(x: int) -> None:
    m = M()
    n = N.mk()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(M.mk(), N)


def c25(x: int) -> None:
    m = M()
    n = N.mk()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert n is m
