from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(xs: List[int], i: int, j: int) -> None:
    Requires(list_pred(xs))
    n = len(xs)
    ys = xs[i:j]
    Assert(Implies(i > j and i >= 0 and j >= 0, len(ys) == 0))


def c1(xs: List[int], i: int, j: int) -> None:
    Requires(list_pred(xs))
    n = len(xs)
    ys = xs[i:j]
    Assert(Implies(i > n, len(ys) == 0))


def c2(xs: List[int], i: int, j: int) -> None:
    Requires(list_pred(xs))
    n = len(xs)
    ys = xs[i:j]
    Assert(Implies(j > n and i == 0, len(ys) == n))


def c3(xs: List[int], i: int, j: int) -> None:
    Requires(list_pred(xs))
    n = len(xs)
    ys = xs[i:j]
    Assert(Implies(j < 0 and i == 0 and j + n >= 0, len(ys) == n + j))


def c4(xs: List[int], i: int, j: int) -> None:
    Requires(list_pred(xs))
    n = len(xs)
    ys = xs[i:j]
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(j < 0 and i == 0, len(ys) == n + j))


def c5(xs: List[int], i: int, j: int) -> None:
    Requires(list_pred(xs))
    n = len(xs)
    ys = xs[i:j]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(ys) == n


def c6(a: int, b: int) -> None:
    xs = [a, b, 3]
    xs.reverse()
    assert xs[0] == 3


def c7(a: int, b: int) -> None:
    xs = [a, b, 3]
    xs.reverse()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[0] == a


def c8(a: int, b: int) -> None:
    xs = [a, b, 3]
    xs.reverse()
    assert xs[2] == a


def c9(a: int, b: int) -> None:
    xs = [a, b, 3]
    xs.reverse()
    assert len(xs) == 3


def c10(a: int, b: int) -> None:
    xs = [a, b, 3]
    xs.reverse()
    assert xs[1] == b


def c11() -> None:
    xs = [3, 1, 2]
    ys = sorted(xs)
    assert len(ys) == 3


def c12() -> None:
    xs = [3, 1, 2]
    ys = sorted(xs)
    assert ys[0] <= ys[1]


def c13() -> None:
    xs = [3, 1, 2]
    ys = sorted(xs)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert ys[0] == 3


def c14() -> None:
    xs = [3, 1, 2]
    ys = sorted(xs)
    assert xs[0] == 3


def c15() -> None:
    xs = [3, 1, 2]
    ys = sorted(xs)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert ys is xs


def c16() -> None:
    xs = [3, 1, 2]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert max(xs) == 2


def c17() -> None:
    xs = [3, 1, 2]
    assert max(xs) >= 1


def c18() -> None:
    xs = [3, 1, 2]
    assert sum(xs) == 6


def c19() -> None:
    xs = [3, 1, 2]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert sum(xs) == 5


def c20(xs: List[int]) -> None:
    Requires(list_pred(xs))
    #:: ExpectedOutput(application.precondition:assertion.false)
    y = max(xs)


def c21(xs: List[int]) -> None:
    Requires(list_pred(xs))
    #:: ExpectedOutput(application.precondition:assertion.false)
    y = min(xs)


def c22(xs: List[int]) -> None:
    Requires(list_pred(xs))
    y = sum(xs)


def c23() -> None:
    xs = [[1], [2]]
    ys = xs[0]
    ys.append(5)
    assert len(xs[0]) == 2


def c24() -> None:
    xs = [[1], [2]]
    ys = xs[0]
    ys.append(5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(xs[0]) == 1


def c25() -> None:
    xs = [[1], [2]]
    ys = xs[0]
    ys.append(5)
    assert len(xs[1]) == 1


def c26() -> None:
    xs = [[1], [2]]
    ys = xs[0]
    ys.append(5)
    assert len(xs) == 2


def c27() -> None:
    xs = [[1], [2]]
    ys = xs[0]
    ys.append(5)
    assert xs[0] is ys


def c28() -> None:
    xs = [[1], [2]]
    ys = xs[0]
    ys.append(5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[1] is ys


def c29() -> None:
    xs = []  # type: List[int]
    assert len(xs) == 0


def c30() -> None:
    xs = []  # type: List[int]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 1 in xs


def c31() -> None:
    xs = []  # type: List[int]
    assert 1 not in xs
