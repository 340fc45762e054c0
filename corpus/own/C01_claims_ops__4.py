from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


def ident(x: int) -> int:
    Ensures(Result() == x)
    return x


def c0(p: bool, q: bool) -> None:
    assert (p and not q or q and not p) == (p != q)


def c1(p: bool, q: bool) -> None:
    assert (p or not p) and (q or not q)


def c2(p: bool, q: bool) -> None:
    assert (p if q else not p) == (p == q)


def c3(p: bool, q: bool) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (p if q else not p) == (p and q)


def c4(p: bool, q: bool) -> None:
    assert ident(p) == int(p)


def c5(p: bool, q: bool) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert ident(p) == 0


def c6(p: bool, a: int) -> None:
    assert p + a - a == (1 if p else 0)


def c7(p: bool, a: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert p + a > a


def c8(p: bool, a: int) -> None:
    assert p * a == (a if p else 0)


def c9(p: bool, a: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert p * a == a


def c10(p: bool, a: int) -> None:
    assert (p and a > 0) == (a > 0 if p else False)


def c11(p: bool, a: int) -> None:
    assert (p or a > 0) == (True if p else a > 0)


def c12(p: bool, a: int) -> None:
    assert (a == p) == (a == 1 and p or a == 0 and not p)


def c13(p: bool, a: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a == p) == (a > 0 and p or a <= 0 and not p)


def c14(p: bool, a: int) -> None:
    assert (a < p) == (a < 1 if p else a < 0)


def c15(p: bool, a: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a < p) == (a < 1)


def c16(p: bool, a: int) -> None:
    assert a != 2 or a != p


def c17(a: int, b: int) -> None:
    x = y = a
    x += 1
    assert y == a


def c18(a: int, b: int) -> None:
    x = y = a
    x += 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert y == a + 1


def c19(a: int, b: int) -> None:
    x = y = a
    x += 1
    assert x == y + 1


def c20(a: int, b: int) -> None:
    x = y = a
    x += 1
    x, y = y, x
    assert x == a and y == a + 1


def c21(a: int, b: int) -> None:
    x = y = a
    x += 1
    x, y = y, x
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x == y


def c22(a: int, b: int) -> None:
    x = y = a
    x += 1
    x, y = y, x
    x, y = y + b, x
    assert x == a + 1 + b and y == a


def c23(a: int, b: int) -> None:
    x = y = a
    x += 1
    x, y = y, x
    x, y = y + b, x
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x == a + b


def c24(a: int, b: int) -> None:
    z = a if a > 0 else b if b > 0 else 0
    assert z >= 0


def c25(a: int, b: int) -> None:
    z = a if a > 0 else b if b > 0 else 0
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert z > 0


def c26(a: int, b: int) -> None:
    z = a if a > 0 else b if b > 0 else 0
    Assert(Implies(a > 0, z == a))


def c27(a: int, b: int) -> None:
    z = a if a > 0 else b if b > 0 else 0
    Assert(Implies(a <= 0 and b > 0, z == b))


def c28(a: int, b: int) -> None:
    z = a if a > 0 else b if b > 0 else 0
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(b > 0, z == b))


def c29(a: int, b: int) -> None:
    z = a if a > 0 else b if b > 0 else 0
    Assert(Implies(a <= 0 and b <= 0, z == 0))


def c30(a: int, b: int) -> None:
    z = a if a > 0 else b if b > 0 else 0
    w = not a > b
    assert w == (a <= b)


def c31(a: int, b: int) -> None:
    z = a if a > 0 else b if b > 0 else 0
    w = not a > b
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert w == (a < b)
