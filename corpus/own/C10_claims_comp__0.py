from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(xs: List[int]) -> None:
    Requires(list_pred(xs))
    ys = [x + 1 for x in xs]
    assert len(ys) == len(xs)


def c1(xs: List[int]) -> None:
    Requires(list_pred(xs))
    ys = [x + 1 for x in xs]
    assert len(xs) == 0 or ys[0] == xs[0] + 1


def c2(xs: List[int]) -> None:
    Requires(list_pred(xs))
    ys = [x + 1 for x in xs]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(xs) == 0 or ys[0] == xs[0]


def c3(xs: List[int]) -> None:
    Requires(list_pred(xs))
    ys = [x + 1 for x in xs]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(ys) == 0


def c4(xs: List[int]) -> None:
    Requires(list_pred(xs))
    ys = [x + 1 for x in xs]
    assert ys is not xs


def c5(xs: List[int]) -> None:
    Requires(list_pred(xs))
    ys = [x + 1 for x in xs]
    assert len(xs) < 2 or ys[-1] == xs[-1] + 1


def c6(xs: List[int]) -> None:
    Requires(list_pred(xs))
    ys = [x + 1 for x in xs]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(xs) < 2 or ys[1] == xs[0] + 1


def c7(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 2)
    ys = [x * 2 for x in xs]
    xs[0] = 100
    assert ys[1] == xs[1] * 2


def c8(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 2)
    ys = [x * 2 for x in xs]
    xs[0] = 100
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert ys[0] == 200


def c9(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 2)
    ys = [x * 2 for x in xs]
    xs[0] = 100
    ys.append(5)
    assert len(ys) == 3


def c10(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 2)
    ys = [x * 2 for x in xs]
    xs[0] = 100
    ys.append(5)
    assert len(xs) == 2


def c11(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 2)
    ys = [x * 2 for x in xs]
    xs[0] = 100
    ys.append(5)
    assert ys[2] == 5


def c12(xs: List[int]) -> None:
    Requires(list_pred(xs))
    ys = [x for x in xs if x > 0]
    assert len(ys) <= len(xs)


def c13(xs: List[int]) -> None:
    Requires(list_pred(xs))
    ys = [x for x in xs if x > 0]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(ys) == len(xs)


def c14(xs: List[int]) -> None:
    Requires(list_pred(xs))
    ys = [x for x in xs if x > 0]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(ys) == 0 or ys[0] == xs[0]


def c15(xs: List[int]) -> None:
    Requires(list_pred(xs))
    ys = [x for x in xs if x > 0]
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Forall(xs, lambda y: y > 0))


def c16(xs: List[int]) -> None:
    Requires(list_pred(xs))
    s = {x + 1 for x in xs}
    assert len(xs) == 0 or xs[0] + 1 in s


def c17(xs: List[int]) -> None:
    Requires(list_pred(xs))
    s = {x + 1 for x in xs}
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 5 in s
