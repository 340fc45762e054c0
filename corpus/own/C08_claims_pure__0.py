from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class Box:
    def __init__(self, v: int, w: int) -> None:
        Ensures(Acc(self.v) and Acc(self.w))  # type: ignore
        Ensures(self.v == v and self.w == w)  # type: ignore
        self.v = v
        self.w = w
@Pure
def sign(n: int) -> int:
    if n > 0:
        return 1
    elif n < 0:
        return -1
    else:
        return 0
@Pure
def early(n: int, m: int) -> int:
    if n > m:
        return n
    k = m + 1
    if k == 5:
        k = 7
    l = k * 2
    return l - n
@Pure
def reassign(n: int) -> int:
    a = n
    b = a + 1
    a = b * 2
    b = a - n
    return b
@Pure
def cond(b: bool, n: int) -> int:
    if b:
        x = n
    else:
        x = -n
    return x if x > 0 else 0
@Pure
def fac(n: int) -> int:
    Requires(n >= 0)
    Ensures(Result() >= 1)
    return 1 if n == 0 else n * fac(n - 1)
@Pure
def get(b: Box) -> int:
    Requires(Acc(b.v, 1/2))
    return b.v
@Pure
def total(b: Box, n: int) -> int:
    Requires(Acc(b.v, 1/2) and Acc(b.w, 1/2))
    s = b.v + n
    if s > 10:
        return get(b)
    return s + b.w
@Pure
def at(l: List[int], i: int) -> int:
    Requires(Acc(list_pred(l), 1/2))
    Requires(0 <= i and i < len(l))
    return l[i]
@Pure
def default(n: int, m: int = 3, k: int = 4) -> int:
    return n * m - k
@Pure
def swap(p: Tuple[int, int]) -> Tuple[int, int]:
    return p[1], p[0]
@Pure
def opt(x: Optional[int]) -> int:
    if x is None:
        return -1
    return x
@Pure
def both(a: bool, b: bool) -> bool:
    if a:
        return b
    return False
@Pure
def nested(a: int, b: int) -> int:
    if a > 0:
        if b > 0:
            return 1
        r = 2
    else:
        r = 3
        if b > 0:
            r = 4
    return r + 10


def c0(n: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert sign(n) == 1


def c1(n: int) -> None:
    Assert(Implies(n > 0, sign(n) == 1))


def c2(n: int) -> None:
    Assert(Implies(n < 0, sign(n) == -1))


def c3(n: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(n < 0, sign(n) == 1))


def c4(n: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(n >= 0, sign(n) == 1))


def c5(n: int) -> None:
    assert sign(0) == 0


def c6(n: int) -> None:
    assert sign(-n) == -sign(n)


def c7(n: int) -> None:
    assert reassign(n) == n + 2


def c8(n: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert reassign(n) == n + 1


def c9(n: int) -> None:
    assert reassign(n) == 2 * n + 2 - n


def c10(n: int, m: int) -> None:
    Assert(Implies(n > m, early(n, m) == n))


def c11(n: int, m: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(n > m, early(n, m) == 2 * m + 2 - n))


def c12(n: int, m: int) -> None:
    Assert(Implies(n <= m and m != 4, early(n, m) == 2 * m + 2 - n))


def c13(n: int, m: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(n <= m, early(n, m) == 2 * m + 2 - n))


def c14(n: int, m: int) -> None:
    Assert(Implies(n <= m and m == 4, early(n, m) == 14 - n))


def c15(n: int, m: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(n <= m and m == 4, early(n, m) == 10 - n))


def c16(n: int, m: int) -> None:
    assert nested(n, m) >= 1


def c17(n: int, m: int) -> None:
    Assert(Implies(n > 0 and m > 0, nested(n, m) == 1))


def c18(n: int, m: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(n > 0 and m > 0, nested(n, m) == 11))


def c19(n: int, m: int) -> None:
    Assert(Implies(n > 0 and m <= 0, nested(n, m) == 12))


def c20(n: int, m: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(n > 0 and m <= 0, nested(n, m) == 13))


def c21(n: int, m: int) -> None:
    Assert(Implies(n <= 0 and m > 0, nested(n, m) == 14))


def c22(n: int, m: int) -> None:
    Assert(Implies(n <= 0 and m <= 0, nested(n, m) == 13))


def c23(n: int, m: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(n <= 0, nested(n, m) == 13))


def c24(n: int, m: int) -> None:
    assert default(n) == 3 * n - 4


def c25(n: int, m: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert default(n) == 4 * n - 3


def c26(n: int, m: int) -> None:
    assert default(n, m) == m * n - 4


def c27(n: int, m: int) -> None:
    assert default(n, k=m) == 3 * n - m


def c28(n: int, m: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert default(n, k=m) == m * n - 4


def c29(n: int, m: int) -> None:
    assert default(m=n, n=m) == m * n - 4


def c30(n: int, m: int) -> None:
    assert default(m=2, n=m) == m * 2 - 4
