from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class Box:
    def __init__(self, v: int, w: int) -> None:
        Ensures(Acc(self.v) and Acc(self.w))  # type: ignore
        Ensures(self.v == v and self.w == w)  # type: ignore
        self.v = v
        self.w = w
@Pure
def sign(n: int) -> int:
    if n > 0:
        return 1
    elif n < 0:
        return -1
    else:
        return 0
@Pure
def early(n: int, m: int) -> int:
    if n > m:
        return n
    k = m + 1
    if k == 5:
        k = 7
    l = k * 2
    return l - n
@Pure
def reassign(n: int) -> int:
    a = n
    b = a + 1
    a = b * 2
    b = a - n
    return b
@Pure
def cond(b: bool, n: int) -> int:
    if b:
        x = n
    else:
        x = -n
    return x if x > 0 else 0
@Pure
def fac(n: int) -> int:
    Requires(n >= 0)
    Ensures(Result() >= 1)
    return 1 if n == 0 else n * fac(n - 1)
@Pure
def get(b: Box) -> int:
    Requires(Acc(b.v, 1/2))
    return b.v
@Pure
def total(b: Box, n: int) -> int:
    Requires(Acc(b.v, 1/2) and Acc(b.w, 1/2))
    s = b.v + n
    if s > 10:
        return get(b)
    return s + b.w
@Pure
def at(l: List[int], i: int) -> int:
    Requires(Acc(list_pred(l), 1/2))
    Requires(0 <= i and i < len(l))
    return l[i]
@Pure
def default(n: int, m: int = 3, k: int = 4) -> int:
    return n * m - k
@Pure
def swap(p: Tuple[int, int]) -> Tuple[int, int]:
    return p[1], p[0]
@Pure
def opt(x: Optional[int]) -> int:
    if x is None:
        return -1
    return x
@Pure
def both(a: bool, b: bool) -> bool:
    if a:
        return b
    return False
@Pure
def nested(a: int, b: int) -> int:
    if a > 0:
        if b > 0:
            return 1
        r = 2
    else:
        r = 3
        if b > 0:
            r = 4
    return r + 10


def c0(a: int, c: int, n: int) -> None:
    b = Box(a, c)
    old = get(b)
    b.v = n
    assert get(b) == n


def c1(a: int, c: int, n: int) -> None:
    b = Box(a, c)
    old = get(b)
    b.v = n
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert get(b) == a


def c2(a: int, c: int, n: int) -> None:
    b = Box(a, c)
    old = get(b)
    b.v = n
    assert old == a


def c3(a: int, c: int, n: int) -> None:
    b = Box(a, c)
    old = get(b)
    b.v = n
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert old == n


def c4(a: int, c: int, n: int) -> None:
    b = Box(a, c)
    old = get(b)
    b.v = n
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert get(b) == old


def c5(a: int, c: int, n: int) -> None:
    b = Box(a, c)
    old = get(b)
    b.v = n
    b.w = 1
    assert get(b) == n


def c6(a: int, c: int, n: int) -> None:
    b = Box(a, c)
    old = get(b)
    b.v = n
    b.w = 1
    Assert(Implies(n > 4, total(b, 6) == n))


def c7(a: int, c: int, n: int) -> None:
    b = Box(a, c)
    old = get(b)
    b.v = n
    b.w = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(n > 4, total(b, 6) == n + 7))


def c8(a: int, c: int, n: int) -> None:
    b = Box(a, c)
    old = get(b)
    b.v = n
    b.w = 1
    Assert(Implies(n <= 4, total(b, 6) == n + 7))


def c9(a: int, c: int, n: int) -> None:
    b = Box(a, c)
    old = get(b)
    b.v = n
    b.w = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert total(b, 6) == n + 7


def c10(x: Optional[int]) -> None:
    Assert(Implies(x is None, opt(x) == -1))


def c11(x: Optional[int]) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x is None, opt(x) == 0))


def c12(x: Optional[int]) -> None:
    Assert(Implies(x is not None, opt(x) == x))


def c13(x: Optional[int]) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x is not None, opt(x) == -1))


def c14(x: Optional[int]) -> None:
    assert opt(None) == -1


def c15(x: Optional[int]) -> None:
    assert opt(4) == 4


def c16(x: Optional[int]) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert opt(4) == -1


def c17(l: List[int], i: int) -> None:
    Requires(list_pred(l))
    Requires(0 <= i and i < len(l))
    at(l, i)


def c18(l: List[int], i: int) -> None:
    Requires(list_pred(l))
    Requires(0 <= i and i < len(l))
    #:: ExpectedOutput(application.precondition:assertion.false)
    at(l, len(l))


def c19(l: List[int], i: int) -> None:
    Requires(list_pred(l))
    Requires(0 <= i and i < len(l))
    assert at(l, i) == l[i]


def c20(l: List[int], i: int) -> None:
    Requires(list_pred(l))
    Requires(0 <= i and i < len(l))
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert at(l, i) == l[0]


def c21(l: List[int], i: int) -> None:
    Requires(list_pred(l))
    Requires(0 <= i and i < len(l))
    #:: ExpectedOutput(application.precondition:assertion.false)
    at(l, i + 1)


def c22(l: List[int], i: int) -> None:
    Requires(list_pred(l))
    Requires(0 <= i and i < len(l))
    at(l, len(l) - 1)


def c23(l: List[int], i: int) -> None:
    Requires(list_pred(l))
    Requires(0 <= i and i < len(l))
    x = at(l, i)
    l[i] = 3
    assert at(l, i) == 3


def c24(l: List[int], i: int) -> None:
    Requires(list_pred(l))
    Requires(0 <= i and i < len(l))
    x = at(l, i)
    l[i] = 3
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert at(l, i) == x


def c25(l: List[int], i: int) -> None:
    Requires(list_pred(l))
    Requires(0 <= i and i < len(l))
    x = at(l, i)
    l[i] = 3
    l.append(x)
    assert at(l, i) == 3


def c26(l: List[int], i: int) -> None:
    Requires(list_pred(l))
    Requires(0 <= i and i < len(l))
    x = at(l, i)
    l[i] = 3
    l.append(x)
    assert at(l, len(l) - 1) == x


def c27(l: List[int], i: int) -> None:
    Requires(list_pred(l))
    Requires(0 <= i and i < len(l))
    x = at(l, i)
    l[i] = 3
    l.append(x)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert at(l, len(l) - 1) == 3
