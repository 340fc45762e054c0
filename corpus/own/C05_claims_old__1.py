from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class C:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)
        self.v = v  # type: int

def set0(c: C) -> None:
    Requires(Acc(c.v))
    Ensures(Acc(c.v) and c.v == 0)
    c.v = 0

def inc(c: C, n: int) -> int:
    Requires(Acc(c.v) and n > 0)
    Ensures(Acc(c.v) and c.v == Old(c.v) + n)
    Ensures(Result() == Old(c.v))
    o = c.v
    c.v = c.v + n
    return o

def swap(a: C, b: C) -> None:
    Requires(Acc(a.v) and Acc(b.v))
    Ensures(Acc(a.v) and Acc(b.v))
    Ensures(a.v == Old(b.v) and b.v == Old(a.v))
    a.v, b.v = b.v, a.v

def unknown(c: C) -> None:
    Requires(Acc(c.v))
    Ensures(Acc(c.v))
    c.v = 5

def reads(c: C) -> int:
    Requires(Acc(c.v, 1/2))
    Ensures(Acc(c.v, 1/2) and Result() >= c.v)
    return c.v

def rd(c: C) -> int:
    Requires(Acc(c.v, 1/10))
    Ensures(Acc(c.v, 1/10) and Result() == c.v + 1)
    return c.v + 1

def cond(c: C, b: bool) -> None:
    Requires(Implies(b, Acc(c.v)))
    Ensures(Implies(b, Acc(c.v) and c.v == 3))
    if b:
        c.v = 3

def param(x: int) -> int:
    Ensures(Result() == x + 1)
    x = x + 1
    return x

def noresult(x: int) -> Optional[int]:
    Ensures(Implies(x > 0, Result() is not None and Result() == x))
    Ensures(Implies(x <= 0, Result() is None))
    if x > 0:
        return x
    return None


def c0(v: int, w: int) -> None:
    a = C(v)
    b = C(w)
    swap(a, b)
    swap(b, a)
    unknown(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a.v == 5


def c1(v: int, w: int) -> None:
    a = C(v)
    b = C(w)
    swap(a, b)
    swap(b, a)
    unknown(a)
    assert a.v == a.v


def c2(v: int) -> None:
    c = C(v)
    r = reads(c)
    assert c.v == v


def c3(v: int) -> None:
    c = C(v)
    r = reads(c)
    assert r >= v


def c4(v: int) -> None:
    c = C(v)
    r = reads(c)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == v


def c5(v: int) -> None:
    c = C(v)
    r = reads(c)
    r = rd(c)
    assert c.v == v


def c6(v: int) -> None:
    c = C(v)
    r = reads(c)
    r = rd(c)
    assert r == v + 1


def c7(v: int) -> None:
    c = C(v)
    r = reads(c)
    r = rd(c)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == v


def c8(v: int) -> None:
    c = C(v)
    r = reads(c)
    r = rd(c)
    c.v = 2
    assert c.v == 2


def c9(v: int) -> None:
    c = C(v)
    r = reads(c)
    r = rd(c)
    c.v = 2
    assert r == v + 1


def c10(v: int, b: bool) -> None:
    c = C(v)
    cond(c, b)
    Assert(Implies(b, c.v == 3))


def c11(v: int, b: bool) -> None:
    c = C(v)
    cond(c, b)
    Assert(Implies(not b, c.v == v))


def c12(v: int, b: bool) -> None:
    c = C(v)
    cond(c, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c.v == 3


def c13(v: int, b: bool) -> None:
    c = C(v)
    cond(c, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c.v == v


def c14(v: int) -> None:
    r = param(v)
    assert r == v + 1


def c15(v: int) -> None:
    r = param(v)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == v


def c16(v: int) -> None:
    r = param(v)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == v + 2


def c17(v: int) -> None:
    r = noresult(v)
    Assert(Implies(v > 0, r == v))


def c18(v: int) -> None:
    r = noresult(v)
    Assert(Implies(v < 0, r is None))


def c19(v: int) -> None:
    r = noresult(v)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r is None


def c20(v: int) -> None:
    r = noresult(v)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r is not None


def c21(v: int) -> None:
    r = noresult(v)
    #:: ExpectedOutput(call.precondition:assertion.false)
    s = noresult(r)
