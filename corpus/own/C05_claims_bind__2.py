from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


def f3(a: int, b: int, c: int) -> int:
    Ensures(Result() == 100 * a + 10 * b + c)
    return 100 * a + 10 * b + c

def d3(a: int, b: int = 2, c: int = 3) -> int:
    Ensures(Result() == 100 * a + 10 * b + c)
    return 100 * a + 10 * b + c

def k3(a: int, *, b: int, c: int = 3) -> int:
    Ensures(Result() == 100 * a + 10 * b + c)
    return 100 * a + 10 * b + c

def v0(*args: int) -> int:
    Ensures(Result() == len(args))
    return len(args)

def v1(a: int, *args: int) -> int:
    Requires(len(args) > 0)
    Ensures(Result() == 100 * a + 10 * args[0] + len(args))
    return 100 * a + 10 * args[0] + len(args)

def v2(a: int, *args: int) -> int:
    Requires(len(args) > 1)
    Ensures(Result() == 100 * a + 10 * args[1] + len(args))
    return 100 * a + 10 * args[1] + len(args)

def vk(a: int, *args: int, k: int = 9) -> int:
    Ensures(Result() == 100 * a + 10 * len(args) + k)
    return 100 * a + 10 * len(args) + k

def kw(a: int, **kws: int) -> int:
    Requires('x' in kws and kws['x'] == a + 1)
    Ensures(Result() == 100 * a)
    return 100 * a

def kw2(a: int, **kws: int) -> int:
    Requires('x' in kws and 'y' in kws and kws['y'] == kws['x'] + a)
    Ensures(Result() == a)
    return a

def all4(a: int, b: int = 5, *args: int, c: int = 7, **kws: int) -> int:
    Requires(len(args) < 3)
    Ensures(Result() == 10000 * a + 1000 * b + 100 * len(args) + 10 * c)
    return 10000 * a + 1000 * b + 100 * len(args) + 10 * c

def last(*args: int) -> int:
    Requires(len(args) == 3)
    Ensures(Result() == args[2])
    return args[2]

@Pure
def p3(a: int, b: int = 2, c: int = 3) -> int:
    return 100 * a + 10 * b + c

@Pure
def pk(a: int, *, b: int, c: int = 3) -> int:
    return 100 * a + 10 * b + c

class B:
    def __init__(self, a: int, b: int = 4) -> None:
        Ensures(Acc(self.a) and self.a == a and Acc(self.b) and self.b == b)
        self.a = a  # type: int
        self.b = b  # type: int

    def m(self, x: int, y: int = 6) -> int:
        Requires(Acc(self.a))
        Ensures(Acc(self.a) and Result() == 100 * self.a + 10 * x + y)
        return 100 * self.a + 10 * x + y

    @staticmethod
    def s(x: int, y: int = 6) -> int:
        Ensures(Result() == 10 * x + y)
        return 10 * x + y

    def mv(self, x: int, *ys: int) -> int:
        Requires(Acc(self.a))
        Ensures(Acc(self.a) and Result() == 100 * self.a + 10 * x + len(ys))
        return 100 * self.a + 10 * x + len(ys)

class D(B):
    def __init__(self, a: int) -> None:
        Ensures(Acc(self.a) and self.a == a + 1 and Acc(self.b) and self.b == 9)
        super().__init__(a + 1, 9)

    def m(self, x: int, y: int = 6) -> int:
        Requires(Acc(self.a))
        Ensures(Acc(self.a) and Result() == 100 * self.a + 10 * x + y)
        r = super().m(x, y)
        return r
class G:
    @classmethod
    def c(cls, x: int, y: int = 8) -> int:
        Ensures(Result() == 10 * x + y)
        return 10 * x + y

@Pure
def pp(a: int, b: int = 2, /, c: int = 3, *, d: int = 4) -> int:
    return 1000 * a + 100 * b + 10 * c + d

def dk(a: int, b: int = 5, *, c: int = 7, d: int) -> int:
    Ensures(Result() == 1000 * a + 100 * b + 10 * c + d)
    return 1000 * a + 100 * b + 10 * c + d


def c0(x: int, y: int, z: int) -> None:
    t = (x, y)
    r = f3(*t, z)
    r = f3(z, *t)
    r = v1(*t)
    r = v2(z, *t)
    r = last(*t, z)
    r = last(z, *t)
    u = (z, 5)
    r = all4(*t, *u)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 10000 * z + 1000 * y + 270


def c1(x: int, y: int, z: int) -> None:
    t = (x, y)
    r = f3(*t, z)
    r = f3(z, *t)
    r = v1(*t)
    r = v2(z, *t)
    r = last(*t, z)
    r = last(z, *t)
    u = (z, 5)
    r = all4(*t, *u)
    r = d3(*t, *(z,))
    assert r == 100 * x + 10 * y + z


def c2(x: int, y: int, z: int) -> None:
    t = (x, y)
    r = f3(*t, z)
    r = f3(z, *t)
    r = v1(*t)
    r = v2(z, *t)
    r = last(*t, z)
    r = last(z, *t)
    u = (z, 5)
    r = all4(*t, *u)
    r = d3(*t, *(z,))
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 100 * z + 10 * x + y


def c3(x: int, y: int, z: int) -> None:
    t = (x, y)
    r = f3(*t, z)
    r = f3(z, *t)
    r = v1(*t)
    r = v2(z, *t)
    r = last(*t, z)
    r = last(z, *t)
    u = (z, 5)
    r = all4(*t, *u)
    r = d3(*t, *(z,))
    r = d3(*t)
    assert r == 100 * x + 10 * y + 3


def c4(x: int, y: int, z: int) -> None:
    t = (x, y)
    r = f3(*t, z)
    r = f3(z, *t)
    r = v1(*t)
    r = v2(z, *t)
    r = last(*t, z)
    r = last(z, *t)
    u = (z, 5)
    r = all4(*t, *u)
    r = d3(*t, *(z,))
    r = d3(*t)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 100 * y + 10 * x + 3


def c5(x: int, y: int, z: int) -> None:
    t = (x, y)
    r = f3(*t, z)
    r = f3(z, *t)
    r = v1(*t)
    r = v2(z, *t)
    r = last(*t, z)
    r = last(z, *t)
    u = (z, 5)
    r = all4(*t, *u)
    r = d3(*t, *(z,))
    r = d3(*t)
    r = d3(*(), x)
    assert r == 100 * x + 23


def c6(x: int, y: int, z: int) -> None:
    r = vk(x)
    assert r == 100 * x + 9


def c7(x: int, y: int, z: int) -> None:
    r = vk(x)
    r = vk(x, y, z)
    assert r == 100 * x + 29


def c8(x: int, y: int, z: int) -> None:
    r = vk(x)
    r = vk(x, y, z)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 100 * x + 19


def c9(x: int, y: int, z: int) -> None:
    r = vk(x)
    r = vk(x, y, z)
    r = vk(x, y, k=z)
    assert r == 100 * x + 10 + z


def c10(x: int, y: int, z: int) -> None:
    r = vk(x)
    r = vk(x, y, z)
    r = vk(x, y, k=z)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 100 * x + 19


def c11(x: int, y: int, z: int) -> None:
    r = vk(x)
    r = vk(x, y, z)
    r = vk(x, y, k=z)
    r = kw(x, x=x + 1)


def c12(x: int, y: int, z: int) -> None:
    r = vk(x)
    r = vk(x, y, z)
    r = vk(x, y, k=z)
    #:: ExpectedOutput(call.precondition:assertion.false)
    r = kw(x, x=x)


def c13(x: int, y: int, z: int) -> None:
    r = vk(x)
    r = vk(x, y, z)
    r = vk(x, y, k=z)
    #:: ExpectedOutput(call.precondition:assertion.false)
    r = kw(x, y=x + 1)


def c14(x: int, y: int, z: int) -> None:
    r = vk(x)
    r = vk(x, y, z)
    r = vk(x, y, k=z)
    #:: ExpectedOutput(call.precondition:assertion.false)
    r = kw(x)


def c15(x: int, y: int, z: int) -> None:
    r = vk(x)
    r = vk(x, y, z)
    r = vk(x, y, k=z)
    r = kw2(x, x=y, y=x + y)


def c16(x: int, y: int, z: int) -> None:
    r = vk(x)
    r = vk(x, y, z)
    r = vk(x, y, k=z)
    r = kw2(y=x + y, x=y, a=x)


def c17(x: int, y: int, z: int) -> None:
    r = vk(x)
    r = vk(x, y, z)
    r = vk(x, y, k=z)
    #:: ExpectedOutput(call.precondition:assertion.false)
    r = kw2(x, y=y, x=x + y)


def c18(x: int, y: int, z: int) -> None:
    r = all4(x)
    assert r == 10000 * x + 5070


def c19(x: int, y: int, z: int) -> None:
    r = all4(x)
    r = all4(x, y)
    assert r == 10000 * x + 1000 * y + 70


def c20(x: int, y: int, z: int) -> None:
    r = all4(x)
    r = all4(x, y)
    r = all4(x, y, z)
    assert r == 10000 * x + 1000 * y + 170


def c21(x: int, y: int, z: int) -> None:
    r = all4(x)
    r = all4(x, y)
    r = all4(x, y, z)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 10000 * x + 1000 * y + 70


def c22(x: int, y: int, z: int) -> None:
    r = all4(x)
    r = all4(x, y)
    r = all4(x, y, z)
    r = all4(x, y, z, z, c=z)
    assert r == 10000 * x + 1000 * y + 200 + 10 * z


def c23(x: int, y: int, z: int) -> None:
    r = all4(x)
    r = all4(x, y)
    r = all4(x, y, z)
    r = all4(x, y, z, z, c=z)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 10000 * x + 1000 * y + 300 + 10 * z


def c24(x: int, y: int, z: int) -> None:
    r = all4(x)
    r = all4(x, y)
    r = all4(x, y, z)
    r = all4(x, y, z, z, c=z)
    r = all4(x, c=y, q=z)
    assert r == 10000 * x + 5000 + 10 * y


def c25(x: int, y: int, z: int) -> None:
    r = all4(x)
    r = all4(x, y)
    r = all4(x, y, z)
    r = all4(x, y, z, z, c=z)
    r = all4(x, c=y, q=z)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 10000 * x + 1000 * y + 70


def c26(x: int, y: int, z: int) -> None:
    r = all4(x)
    r = all4(x, y)
    r = all4(x, y, z)
    r = all4(x, y, z, z, c=z)
    r = all4(x, c=y, q=z)
    r = all4(b=x, a=y, q=z, w=z)
    assert r == 10000 * y + 1000 * x + 70


def c27(x: int, y: int, z: int) -> None:
    r = all4(x)
    r = all4(x, y)
    r = all4(x, y, z)
    r = all4(x, y, z, z, c=z)
    r = all4(x, c=y, q=z)
    r = all4(b=x, a=y, q=z, w=z)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 10000 * x + 1000 * y + 70


def c28(x: int, y: int, z: int) -> None:
    r = p3(x)
    assert r == 100 * x + 23


def c29(x: int, y: int, z: int) -> None:
    r = p3(x)
    r = p3(x, c=y)
    assert r == 100 * x + 20 + y


def c30(x: int, y: int, z: int) -> None:
    r = p3(x)
    r = p3(x, c=y)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 100 * x + 10 * y + 3


def c31(x: int, y: int, z: int) -> None:
    r = p3(x)
    r = p3(x, c=y)
    r = p3(c=x, b=y, a=z)
    assert r == 100 * z + 10 * y + x
