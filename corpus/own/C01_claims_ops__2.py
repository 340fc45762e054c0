from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


def ident(x: int) -> int:
    Ensures(Result() == x)
    return x


def c0(a: int, b: int, c: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a - b * c == (a - b) * c


def c1(a: int, b: int, c: int) -> None:
    assert a - b * c == a - (b * c)


def c2(a: int, b: int, c: int) -> None:
    assert max(a, max(b, c)) == max(max(a, b), c)


def c3(a: int, b: int, c: int) -> None:
    assert max(a, b) + c == max(a + c, b + c)


def c4(a: int, b: int, c: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert max(a, b) * c == max(a * c, b * c)


def c5(a: int, b: int, c: int) -> None:
    assert min(a, b) - c == min(a - c, b - c)


def c6(a: int, b: int, c: int) -> None:
    Assert(Implies(c > 0, (a < b) == (a * c < b * c)))


def c7(a: int, b: int, c: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(c != 0, (a < b) == (a * c < b * c)))


def c8(a: int, b: int, c: int) -> None:
    assert not a < b or not b < c or a < c


def c9(a: int, b: int, c: int) -> None:
    assert (a or b) == (a if a != 0 else b)


def c10(a: int, b: int, c: int) -> None:
    assert (a and b) == (b if a != 0 else a)


def c11(a: int, b: int, c: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a or b) == a


def c12(a: int, b: int, c: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a and b) == b


def c13(a: int, b: int, c: int) -> None:
    assert (a or b or c) == (a if a != 0 else (b if b != 0 else c))


def c14(a: int, b: int, c: int) -> None:
    assert (a and b and c) == (c if a != 0 and b != 0 else (a if a == 0 else b))


def c15(a: int, b: int, c: int) -> None:
    assert (a and b or c) == (b if a != 0 and b != 0 else c)


def c16(a: int, b: int, c: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a and b or c) == (b if a != 0 else c)


def c17(a: int, b: int, c: int) -> None:
    assert (not a) == (a == 0)


def c18(a: int, b: int, c: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (not a) == (a <= 0)


def c19(a: int, b: int, c: int) -> None:
    assert bool(a) == (a != 0)


def c20(a: int, b: int, c: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert bool(a) == (a > 0)


def c21(a: int, b: int, c: int) -> None:
    assert int(a) == a


def c22(a: int, b: int, c: int) -> None:
    assert (a if b else c) == (a if b != 0 else c)


def c23(a: int, b: int, c: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a if b else c) == (a if b > 0 else c)


def c24(a: int) -> None:
    b = a
    b += 3
    assert b == a + 3


def c25(a: int) -> None:
    b = a
    b += 3
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b == 3


def c26(a: int) -> None:
    b = a
    b += 3
    b -= a
    assert b == 3


def c27(a: int) -> None:
    b = a
    b += 3
    b -= a
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b == 0


def c28(a: int) -> None:
    b = a
    b += 3
    b -= a
    b *= a
    assert b == 3 * a


def c29(a: int) -> None:
    b = a
    b += 3
    b -= a
    b *= a
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b == a


def c30(a: int) -> None:
    b = a
    b += 3
    b -= a
    b *= a
    b **= 2
    assert b == 9 * a * a


def c31(a: int) -> None:
    b = a
    b += 3
    b -= a
    b *= a
    b **= 2
    b -= a - 1
    assert b == 9 * a * a - a + 1


def c32(a: int) -> None:
    b = a
    b += 3
    b -= a
    b *= a
    b **= 2
    b -= a - 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b == 9 * a * a - a - 1


def c33(a: int) -> None:
    b = a
    b += 3
    b -= a
    b *= a
    b **= 2
    b -= a - 1
    b = b - a - 1 if a > 0 else b + a + 1
    Assert(Implies(a > 0, b == 9 * a * a - 2 * a))


def c34(a: int) -> None:
    b = a
    b += 3
    b -= a
    b *= a
    b **= 2
    b -= a - 1
    b = b - a - 1 if a > 0 else b + a + 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(a > 0, b == 9 * a * a))


def c35(a: int) -> None:
    b = a
    b += 3
    b -= a
    b *= a
    b **= 2
    b -= a - 1
    b = b - a - 1 if a > 0 else b + a + 1
    Assert(Implies(a <= 0, b == 9 * a * a + 2))


def c36(p: bool, q: bool) -> None:
    assert (p and q) == (not (not p or not q))
