from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(xs: List[int], i: int) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    Requires(0 <= i and i < len(xs))
    #:: ExpectedOutput(application.precondition:assertion.false)
    y = xs[i + 1]


def c1(xs: List[int], i: int) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    Requires(0 <= i and i < len(xs))
    y = xs[i - 1]


def c2(xs: List[int], i: int) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    Requires(0 <= i and i < len(xs))
    y = xs[i - len(xs)]


def c3(xs: List[int], i: int) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    Requires(0 <= i and i < len(xs))
    y = xs[-i]


def c4(xs: List[int], i: int) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    Requires(0 <= i and i < len(xs))
    y = xs[-i - 1]


def c5(xs: List[int], i: int) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    Requires(0 <= i and i < len(xs))
    xs[i] = 3


def c6(xs: List[int], i: int) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    Requires(0 <= i and i < len(xs))
    y = xs[i - 2]


def c7(xs: List[int], i: int) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    Requires(0 <= i and i < len(xs))
    #:: ExpectedOutput(application.precondition:assertion.false)
    y = xs[i - len(xs) - 1]


def c8(xs: List[int], i: int) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    Requires(0 <= i and i < len(xs))
    n = len(xs)
    o = xs[i]
    xs[i] = o + 1
    assert xs[i] == o + 1


def c9(xs: List[int], i: int) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    Requires(0 <= i and i < len(xs))
    n = len(xs)
    o = xs[i]
    xs[i] = o + 1
    assert len(xs) == n


def c10(xs: List[int], i: int) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    Requires(0 <= i and i < len(xs))
    n = len(xs)
    o = xs[i]
    xs[i] = o + 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[0] == o


def c11(a: int, b: int, c: int) -> None:
    xs = [a, b, c]
    xs.insert(1, 9)
    assert len(xs) == 4


def c12(a: int, b: int, c: int) -> None:
    xs = [a, b, c]
    xs.insert(1, 9)
    assert xs[1] == 9


def c13(a: int, b: int, c: int) -> None:
    xs = [a, b, c]
    xs.insert(1, 9)
    assert xs[0] == a


def c14(a: int, b: int, c: int) -> None:
    xs = [a, b, c]
    xs.insert(1, 9)
    assert xs[2] == b


def c15(a: int, b: int, c: int) -> None:
    xs = [a, b, c]
    xs.insert(1, 9)
    assert xs[3] == c


def c16(a: int, b: int, c: int) -> None:
    xs = [a, b, c]
    xs.insert(1, 9)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[1] == b


def c17(a: int, b: int, c: int) -> None:
    xs = [a, b, c]
    xs.insert(-1, 9)
    assert xs[2] == 9


def c18(a: int, b: int, c: int) -> None:
    xs = [a, b, c]
    xs.insert(-1, 9)
    assert xs[3] == c


def c19(a: int, b: int, c: int) -> None:
    xs = [a, b, c]
    xs.insert(-1, 9)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[3] == 9


def c20(a: int, b: int, c: int) -> None:
    xs = [a, b, c]
    xs.insert(-1, 9)
    xs.insert(77, 5)
    assert xs[4] == 5


def c21(a: int, b: int, c: int) -> None:
    xs = [a, b, c]
    xs.insert(-1, 9)
    xs.insert(77, 5)
    assert len(xs) == 5


def c22(a: int, b: int, c: int) -> None:
    xs = [a, b, c]
    xs.insert(-1, 9)
    xs.insert(77, 5)
    xs.insert(-77, 6)
    assert xs[0] == 6


def c23(a: int, b: int, c: int) -> None:
    xs = [a, b, c]
    xs.insert(-1, 9)
    xs.insert(77, 5)
    xs.insert(-77, 6)
    assert xs[1] == a


def c24(a: int, b: int, c: int) -> None:
    xs = [a, b, c]
    xs.insert(-1, 9)
    xs.insert(77, 5)
    xs.insert(-77, 6)
    assert xs[5] == 5


def c25(a: int, b: int, c: int) -> None:
    xs = [a, b, c]
    xs.insert(-1, 9)
    xs.insert(77, 5)
    xs.insert(-77, 6)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[5] == 6


def c26() -> None:
    xs = [1, 2, 1]
    xs.remove(1)
    assert len(xs) == 2


def c27() -> None:
    xs = [1, 2, 1]
    xs.remove(1)
    assert xs[0] == 2


def c28() -> None:
    xs = [1, 2, 1]
    xs.remove(1)
    assert xs[1] == 1


def c29() -> None:
    xs = [1, 2, 1]
    xs.remove(1)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[0] == 1


def c30() -> None:
    xs = [1, 2, 1]
    xs.remove(1)
    assert 1 in xs


def c31() -> None:
    xs = [4, 5, 5]
    i = xs.index(5)
    assert i == 1


def c32() -> None:
    xs = [4, 5, 5]
    i = xs.index(5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert i == 2


def c33() -> None:
    xs = [4, 5, 5]
    i = xs.index(5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert i == 0
