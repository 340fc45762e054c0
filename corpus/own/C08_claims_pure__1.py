from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class Box:
    def __init__(self, v: int, w: int) -> None:
        Ensures(Acc(self.v) and Acc(self.w))  # type: ignore
        Ensures(self.v == v and self.w == w)  # type: ignore
        self.v = v
        self.w = w
@Pure
def sign(n: int) -> int:
    if n > 0:
        return 1
    elif n < 0:
        return -1
    else:
        return 0
@Pure
def early(n: int, m: int) -> int:
    if n > m:
        return n
    k = m + 1
    if k == 5:
        k = 7
    l = k * 2
    return l - n
@Pure
def reassign(n: int) -> int:
    a = n
    b = a + 1
    a = b * 2
    b = a - n
    return b
@Pure
def cond(b: bool, n: int) -> int:
    if b:
        x = n
    else:
        x = -n
    return x if x > 0 else 0
@Pure
def fac(n: int) -> int:
    Requires(n >= 0)
    Ensures(Result() >= 1)
    return 1 if n == 0 else n * fac(n - 1)
@Pure
def get(b: Box) -> int:
    Requires(Acc(b.v, 1/2))
    return b.v
@Pure
def total(b: Box, n: int) -> int:
    Requires(Acc(b.v, 1/2) and Acc(b.w, 1/2))
    s = b.v + n
    if s > 10:
        return get(b)
    return s + b.w
@Pure
def at(l: List[int], i: int) -> int:
    Requires(Acc(list_pred(l), 1/2))
    Requires(0 <= i and i < len(l))
    return l[i]
@Pure
def default(n: int, m: int = 3, k: int = 4) -> int:
    return n * m - k
@Pure
def swap(p: Tuple[int, int]) -> Tuple[int, int]:
    return p[1], p[0]
@Pure
def opt(x: Optional[int]) -> int:
    if x is None:
        return -1
    return x
@Pure
def both(a: bool, b: bool) -> bool:
    if a:
        return b
    return False
@Pure
def nested(a: int, b: int) -> int:
    if a > 0:
        if b > 0:
            return 1
        r = 2
    else:
        r = 3
        if b > 0:
            r = 4
    return r + 10


def c0(n: int, m: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert default(m=2, n=m) == n * 2 - 4


def c1(n: int, m: int) -> None:
    assert swap((n, m))[0] == m


def c2(n: int, m: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert swap((n, m))[0] == n


def c3(n: int, m: int) -> None:
    assert swap((n, m)) == (m, n)


def c4(n: int, m: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert swap((n, m)) == (n, m)


def c5(b: bool, n: int) -> None:
    Assert(Implies(b and n > 0, cond(b, n) == n))


def c6(b: bool, n: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(b, cond(b, n) == n))


def c7(b: bool, n: int) -> None:
    Assert(Implies(not b and n < 0, cond(b, n) == -n))


def c8(b: bool, n: int) -> None:
    assert cond(b, n) >= 0


def c9(b: bool, n: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert cond(b, n) > 0


def c10(b: bool, n: int) -> None:
    assert cond(True, n) + cond(False, n) == abs(n)


def c11(b: bool, n: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert cond(True, n) + cond(False, n) == n


def c12(b: bool, n: int) -> None:
    assert both(b, n > 0) == (b and n > 0)


def c13(b: bool, n: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert both(b, n > 0) == (b or n > 0)


def c14(b: bool, n: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert both(b, n > 0) == b


def c15() -> None:
    assert fac(0) == 1


def c16() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert fac(3) == 5


def c17() -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    fac(-1)


def c18() -> None:
    fac(2)


def c19(n: int) -> None:
    Requires(n >= 0)
    assert fac(n) >= 1


def c20(n: int) -> None:
    Requires(n >= 0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert fac(n + 1) == n * fac(n)


def c21(n: int) -> None:
    Requires(n >= 0)
    assert fac(n + 1) >= n + 1


def c22(n: int) -> None:
    Requires(n >= 0)
    fac(n)


def c23(n: int) -> None:
    Requires(n >= 0)
    #:: ExpectedOutput(application.precondition:assertion.false)
    fac(n - 1)


def c24(n: int) -> None:
    Requires(n > 0)
    fac(n - 1)


def c25(n: int) -> None:
    Requires(n > 0)
    assert fac(n) == n * fac(n - 1)


def c26(a: int, c: int, n: int) -> None:
    b = Box(a, c)
    assert get(b) == a


def c27(a: int, c: int, n: int) -> None:
    b = Box(a, c)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert get(b) == c
