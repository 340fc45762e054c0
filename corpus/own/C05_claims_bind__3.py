from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


def f3(a: int, b: int, c: int) -> int:
    Ensures(Result() == 100 * a + 10 * b + c)
    return 100 * a + 10 * b + c

def d3(a: int, b: int = 2, c: int = 3) -> int:
    Ensures(Result() == 100 * a + 10 * b + c)
    return 100 * a + 10 * b + c

def k3(a: int, *, b: int, c: int = 3) -> int:
    Ensures(Result() == 100 * a + 10 * b + c)
    return 100 * a + 10 * b + c

def v0(*args: int) -> int:
    Ensures(Result() == len(args))
    return len(args)

def v1(a: int, *args: int) -> int:
    Requires(len(args) > 0)
    Ensures(Result() == 100 * a + 10 * args[0] + len(args))
    return 100 * a + 10 * args[0] + len(args)

def v2(a: int, *args: int) -> int:
    Requires(len(args) > 1)
    Ensures(Result() == 100 * a + 10 * args[1] + len(args))
    return 100 * a + 10 * args[1] + len(args)

def vk(a: int, *args: int, k: int = 9) -> int:
    Ensures(Result() == 100 * a + 10 * len(args) + k)
    return 100 * a + 10 * len(args) + k

def kw(a: int, **kws: int) -> int:
    Requires('x' in kws and kws['x'] == a + 1)
    Ensures(Result() == 100 * a)
    return 100 * a

def kw2(a: int, **kws: int) -> int:
    Requires('x' in kws and 'y' in kws and kws['y'] == kws['x'] + a)
    Ensures(Result() == a)
    return a

def all4(a: int, b: int = 5, *args: int, c: int = 7, **kws: int) -> int:
    Requires(len(args) < 3)
    Ensures(Result() == 10000 * a + 1000 * b + 100 * len(args) + 10 * c)
    return 10000 * a + 1000 * b + 100 * len(args) + 10 * c

def last(*args: int) -> int:
    Requires(len(args) == 3)
    Ensures(Result() == args[2])
    return args[2]

@Pure
def p3(a: int, b: int = 2, c: int = 3) -> int:
    return 100 * a + 10 * b + c

@Pure
def pk(a: int, *, b: int, c: int = 3) -> int:
    return 100 * a + 10 * b + c

class B:
    def __init__(self, a: int, b: int = 4) -> None:
        Ensures(Acc(self.a) and self.a == a and Acc(self.b) and self.b == b)
        self.a = a  # type: int
        self.b = b  # type: int

    def m(self, x: int, y: int = 6) -> int:
        Requires(Acc(self.a))
        Ensures(Acc(self.a) and Result() == 100 * self.a + 10 * x + y)
        return 100 * self.a + 10 * x + y

    @staticmethod
    def s(x: int, y: int = 6) -> int:
        Ensures(Result() == 10 * x + y)
        return 10 * x + y

    def mv(self, x: int, *ys: int) -> int:
        Requires(Acc(self.a))
        Ensures(Acc(self.a) and Result() == 100 * self.a + 10 * x + len(ys))
        return 100 * self.a + 10 * x + len(ys)

class D(B):
    def __init__(self, a: int) -> None:
        Ensures(Acc(self.a) and self.a == a + 1 and Acc(self.b) and self.b == 9)
        super().__init__(a + 1, 9)

    def m(self, x: int, y: int = 6) -> int:
        Requires(Acc(self.a))
        Ensures(Acc(self.a) and Result() == 100 * self.a + 10 * x + y)
        r = super().m(x, y)
        return r
class G:
    @classmethod
    def c(cls, x: int, y: int = 8) -> int:
        Ensures(Result() == 10 * x + y)
        return 10 * x + y

@Pure
def pp(a: int, b: int = 2, /, c: int = 3, *, d: int = 4) -> int:
    return 1000 * a + 100 * b + 10 * c + d

def dk(a: int, b: int = 5, *, c: int = 7, d: int) -> int:
    Ensures(Result() == 1000 * a + 100 * b + 10 * c + d)
    return 1000 * a + 100 * b + 10 * c + d


def c0(x: int, y: int, z: int) -> None:
    r = p3(x)
    r = p3(x, c=y)
    r = p3(c=x, b=y, a=z)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 100 * x + 10 * y + z


def c1(x: int, y: int, z: int) -> None:
    r = p3(x)
    r = p3(x, c=y)
    r = p3(c=x, b=y, a=z)
    r = pk(x, c=y, b=z)
    assert r == 100 * x + 10 * z + y


def c2(x: int, y: int, z: int) -> None:
    r = p3(x)
    r = p3(x, c=y)
    r = p3(c=x, b=y, a=z)
    r = pk(x, c=y, b=z)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 100 * x + 10 * y + z


def c3(x: int, y: int, z: int) -> None:
    r = p3(x)
    r = p3(x, c=y)
    r = p3(c=x, b=y, a=z)
    r = pk(x, c=y, b=z)
    r = p3(p3(x), p3(y, z))
    assert r == 100 * (100 * x + 23) + 10 * (100 * y + 10 * z + 3) + 3


def c4(x: int, y: int, z: int) -> None:
    r = p3(x)
    r = p3(x, c=y)
    r = p3(c=x, b=y, a=z)
    r = pk(x, c=y, b=z)
    r = p3(p3(x), p3(y, z))
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 100 * (100 * y + 10 * z + 3) + 10 * (100 * x + 23) + 3


def c5(x: int, y: int, z: int) -> None:
    b = B(x)
    assert b.a == x


def c6(x: int, y: int, z: int) -> None:
    b = B(x)
    assert b.b == 4


def c7(x: int, y: int, z: int) -> None:
    b = B(x)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b.b == x


def c8(x: int, y: int, z: int) -> None:
    b = B(x)
    b = B(b=x, a=y)
    assert b.a == y


def c9(x: int, y: int, z: int) -> None:
    b = B(x)
    b = B(b=x, a=y)
    assert b.b == x


def c10(x: int, y: int, z: int) -> None:
    b = B(x)
    b = B(b=x, a=y)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b.a == x


def c11(x: int, y: int, z: int) -> None:
    b = B(x)
    b = B(b=x, a=y)
    r = b.m(z)
    r = b.m(y=x, x=z)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 100 * y + 10 * x + z


def c12(x: int, y: int, z: int) -> None:
    b = B(x)
    b = B(b=x, a=y)
    r = b.m(z)
    r = b.m(y=x, x=z)
    r = b.mv(x, y, z)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 100 * y + 10 * x + 3


def c13(x: int, y: int, z: int) -> None:
    b = B(x)
    b = B(b=x, a=y)
    r = b.m(z)
    r = b.m(y=x, x=z)
    r = b.mv(x, y, z)
    r = b.s(x)
    assert r == 10 * x + 6


def c14(x: int, y: int, z: int) -> None:
    b = B(x)
    b = B(b=x, a=y)
    r = b.m(z)
    r = b.m(y=x, x=z)
    r = b.mv(x, y, z)
    r = b.s(x)
    r = B.s(y=x, x=y)
    assert r == 10 * y + x


def c15(x: int, y: int, z: int) -> None:
    b = B(x)
    b = B(b=x, a=y)
    r = b.m(z)
    r = b.m(y=x, x=z)
    r = b.mv(x, y, z)
    r = b.s(x)
    r = B.s(y=x, x=y)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 10 * x + y


def c16(x: int, y: int, z: int) -> None:
    b = B(x)
    b = B(b=x, a=y)
    r = b.m(z)
    r = b.m(y=x, x=z)
    r = b.mv(x, y, z)
    r = b.s(x)
    r = B.s(y=x, x=y)
    r = G.c(x)
    assert r == 10 * x + 8


def c17(x: int, y: int, z: int) -> None:
    b = B(x)
    b = B(b=x, a=y)
    r = b.m(z)
    r = b.m(y=x, x=z)
    r = b.mv(x, y, z)
    r = b.s(x)
    r = B.s(y=x, x=y)
    r = G.c(x)
    r = G.c(y=x, x=y)
    assert r == 10 * y + x


def c18(x: int, y: int, z: int) -> None:
    b = B(x)
    b = B(b=x, a=y)
    r = b.m(z)
    r = b.m(y=x, x=z)
    r = b.mv(x, y, z)
    r = b.s(x)
    r = B.s(y=x, x=y)
    r = G.c(x)
    r = G.c(y=x, x=y)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 10 * x + y


def c19(x: int, y: int, z: int) -> None:
    b = B(x)
    b = B(b=x, a=y)
    r = b.m(z)
    r = b.m(y=x, x=z)
    r = b.mv(x, y, z)
    r = b.s(x)
    r = B.s(y=x, x=y)
    r = G.c(x)
    r = G.c(y=x, x=y)
    r = G().c(x, y)
    assert r == 10 * x + y


def c20(x: int, y: int) -> None:
    d = D(x)
    assert d.a == x + 1


def c21(x: int, y: int) -> None:
    d = D(x)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert d.a == x


def c22(x: int, y: int) -> None:
    d = D(x)
    assert d.b == 9


def c23(x: int, y: int) -> None:
    d = D(x)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert d.b == 4


def c24(x: int, y: int) -> None:
    d = D(x)
    r = d.m(y)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 100 * x + 10 * y + 6
