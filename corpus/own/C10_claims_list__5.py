from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0() -> None:
    xs = []  # type: List[int]
    #:: ExpectedOutput(application.precondition:assertion.false)
    y = xs[0]


def c1() -> None:
    xs = []  # type: List[int]
    xs.append(1)
    assert 1 in xs


def c2() -> None:
    xs = []  # type: List[int]
    xs.append(1)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 2 in xs


def c3() -> None:
    xs = []  # type: List[int]
    xs.append(1)
    assert 2 not in xs


def c4(a: int, b: int) -> None:
    xs = list([a, b])
    assert len(xs) == 2


def c5(a: int, b: int) -> None:
    xs = list([a, b])
    assert xs[0] == a


def c6(a: int, b: int) -> None:
    xs = list([a, b])
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[0] == b


def c7(a: int, b: int) -> None:
    xs = list([a, b])
    ys = list(xs)
    ys[0] = 99
    assert xs[0] == a


def c8(a: int, b: int) -> None:
    xs = list([a, b])
    ys = list(xs)
    ys[0] = 99
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[0] == 99


def c9(a: int, b: int) -> None:
    xs = list([a, b])
    ys = list(xs)
    ys[0] = 99
    assert ys is not xs


def c10(n: int) -> None:
    Requires(n >= 0)
    xs = list(range(0, n))
    assert len(xs) == n


def c11(n: int) -> None:
    Requires(n >= 0)
    xs = list(range(0, n))
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(xs) == n + 1


def c12(n: int) -> None:
    Requires(n >= 0)
    xs = list(range(0, n))
    Assert(Implies(n > 2, xs[2] == 2))


def c13(n: int) -> None:
    Requires(n >= 0)
    xs = list(range(0, n))
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(n > 2, xs[2] == 3))


def c14(n: int) -> None:
    Requires(n >= 0)
    xs = list(range(0, n))
    ys = [0] * n
    assert len(ys) == n


def c15(n: int) -> None:
    Requires(n >= 0)
    xs = list(range(0, n))
    ys = [0] * n
    Assert(Implies(n > 3, ys[3] == 0))


def c16(n: int) -> None:
    Requires(n >= 0)
    xs = list(range(0, n))
    ys = [0] * n
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(n > 3, ys[3] == 1))


def c17(xs: List[int], ys: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(list_pred(ys))
    Assert(Implies(xs == ys, len(xs) == len(ys)))


def c18(xs: List[int], ys: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(list_pred(ys))
    Assert(Implies(xs == ys and len(xs) > 0, xs[0] == ys[0]))


def c19(xs: List[int], ys: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(list_pred(ys))
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(len(xs) == len(ys), xs == ys))


def c20(xs: List[int], ys: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(list_pred(ys))
    assert xs == xs


def c21(xs: List[int], ys: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(list_pred(ys))
    Assert(Implies(len(xs) != len(ys), xs != ys))


def c22(p: bool) -> None:
    xs = [True, p]
    assert xs[0]


def c23(p: bool) -> None:
    xs = [True, p]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[1]


def c24(p: bool) -> None:
    xs = [True, p]
    assert xs[1] == p


def c25(p: bool) -> None:
    xs = [True, p]
    assert True in xs


def c26(p: bool) -> None:
    xs = [True, p]
    assert len(xs) == 2


def c27(s: str) -> None:
    xs = ['a', s]
    assert 'a' in xs


def c28(s: str) -> None:
    xs = ['a', s]
    assert s in xs


def c29(s: str) -> None:
    xs = ['a', s]
    assert xs[1] == s


def c30(s: str) -> None:
    xs = ['a', s]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[0] == s


def c31(s: str) -> None:
    xs = ['a', s]
    assert xs[0] == 'a'


def c32(s: str) -> None:
    xs = ['a', s]
    xs[0] = 'c'
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 'a' in xs
