from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class A:
    K = 5
    def __init__(self, a: int) -> None:
        Ensures(Acc(self.a) and self.a == a)
        self.a = a  # type: int

    @staticmethod
    def st(x: int) -> int:
        Ensures(Result() == x + 1)
        return x + 1

    def get(self) -> int:
        Requires(Acc(self.a))
        Ensures(Acc(self.a) and self.a == Old(self.a) and Result() == self.a)
        return self.a

    def set_a(self, v: int) -> None:
        Requires(Acc(self.a))
        Ensures(Acc(self.a) and self.a == v)
        self.a = v

class B(A):
    def __init__(self, a: int, b: int) -> None:
        Ensures(Acc(self.a) and self.a == a + 1)
        Ensures(Acc(self.b) and self.b == b)
        super().__init__(a + 1)
        self.b = b  # type: int

    def both(self) -> int:
        Requires(Acc(self.a) and Acc(self.b))
        Ensures(Acc(self.a) and Acc(self.b))
        Ensures(self.a == Old(self.a) and self.b == Old(self.b))
        Ensures(Result() == self.a + self.b)
        return super().get() + self.b

class C(A):
    def extra(self) -> int:
        Requires(Acc(self.a))
        Ensures(Acc(self.a) and self.a == Old(self.a) * 2)
        self.set_a(self.get() * 2)
        return 0
class M:
    @classmethod
    def cl(cls, x: int) -> int:
        Ensures(Result() == x + 2)
        return x + 2

    @classmethod
    def mk(cls) -> 'M':
        Ensures(isinstance(Result(), M))
        return cls()

class N(M):
    pass


def c0(x: int) -> None:
    a = A(x)
    assert a.a == x


def c1(x: int) -> None:
    a = A(x)
    assert a.get() == x


def c2(x: int) -> None:
    a = A(x)
    a.set_a(3)
    assert a.a == 3


def c3(x: int) -> None:
    a = A(x)
    a.set_a(3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a.a == x


def c4(x: int) -> None:
    a = A(x)
    a.set_a(3)
    a.a += 2
    assert a.a == 5


def c5(x: int) -> None:
    a = A(x)
    a.set_a(3)
    a.a += 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a.get() == 3


def c6(x: int) -> None:
    a = A(x)
    a.set_a(3)
    a.a += 2
    b = B(1, 2)
    assert b.a == 2


def c7(x: int) -> None:
    a = A(x)
    a.set_a(3)
    a.a += 2
    b = B(1, 2)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b.a == 1


def c8(x: int) -> None:
    a = A(x)
    a.set_a(3)
    a.a += 2
    b = B(1, 2)
    assert b.b == 2


def c9(x: int) -> None:
    a = A(x)
    a.set_a(3)
    a.a += 2
    b = B(1, 2)
    assert b.both() == 4


def c10(x: int) -> None:
    a = A(x)
    a.set_a(3)
    a.a += 2
    b = B(1, 2)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b.both() == 3


def c11(x: int) -> None:
    a = A(x)
    a.set_a(3)
    a.a += 2
    b = B(1, 2)
    assert a.a == 5


def c12(x: int) -> None:
    a = A(x)
    a.set_a(3)
    a.a += 2
    b = B(1, 2)
    assert a is not b


def c13(x: int) -> None:
    a = A(x)
    a.set_a(3)
    a.a += 2
    b = B(1, 2)
    c = C(7)
    assert c.a == 7


def c14(x: int) -> None:
    a = A(x)
    a.set_a(3)
    a.a += 2
    b = B(1, 2)
    c = C(7)
    c.extra()
    assert c.a == 14


def c15(x: int) -> None:
    a = A(x)
    a.set_a(3)
    a.a += 2
    b = B(1, 2)
    c = C(7)
    c.extra()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c.a == 7


def c16(x: int) -> None:
    a = A(x)
    a.set_a(3)
    a.a += 2
    b = B(1, 2)
    c = C(7)
    c.extra()
    assert b.a == 2


def c17(x: int) -> None:
    assert A.K == 5


def c18(x: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert A.K == 4


def c19(x: int) -> None:
    assert A.st(x) == x + 1


def c20(x: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert A.st(x) == x


def c21(x: int) -> None:
    assert B.st(x) == x + 1


def c22(x: int) -> None:
    a = A(x)
    assert a.st(3) == 4


def c23(x: int) -> None:
    a = A(1)
    b = a
    b.set_a(x)
    assert a.a == x
