from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(xs: List[int]) -> None:
    Requires(list_pred(xs))
    s = {x + 1 for x in xs}
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(s) == len(xs)


def c1(xs: List[int]) -> None:
    Requires(list_pred(xs))
    s = {x for x in xs if x > 0}
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 1 in s


def c2(xs: List[int]) -> None:
    Requires(list_pred(xs))
    s = {x for x in xs if x > 0}
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert -3 in s


def c3(xs: List[int]) -> None:
    Requires(list_pred(xs))
    d = {x: x + 1 for x in xs}
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 4 in d


def c4(xs: List[int]) -> None:
    Requires(list_pred(xs))
    d = {x: x + 1 for x in xs}
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(d) == len(xs)


def c5(xs: List[int]) -> None:
    Requires(list_pred(xs))
    #:: ExpectedOutput(application.precondition:assertion.false)
    ys = [10 // x for x in xs]


def c6(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(Forall(xs, lambda x: x > 0))
    ys = [10 // x for x in xs]


def c7(xs: List[int]) -> None:
    Requires(list_pred(xs))
    ys = [10 // x for x in xs if x != 0]


def c8(xs: List[int]) -> None:
    Requires(list_pred(xs))
    #:: ExpectedOutput(application.precondition:assertion.false)
    s = {10 // x for x in xs}


def c9(xs: List[int]) -> None:
    Requires(list_pred(xs))
    #:: ExpectedOutput(application.precondition:assertion.false)
    d = {x: 10 // x for x in xs}


def c10(xs: List[int]) -> None:
    Requires(list_pred(xs))
    #:: ExpectedOutput(application.precondition:assertion.false)
    d = {10 // x: x for x in xs}


def c11(xs: List[int]) -> None:
    Requires(list_pred(xs))
    #:: ExpectedOutput(application.precondition:assertion.false)
    ys = [x for x in xs if 10 // x > 1]


def c12(x: int, xs: List[int]) -> None:
    Requires(list_pred(xs))
    ys = [x for x in xs]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x == 0


def c13(x: int, xs: List[int]) -> None:
    Requires(list_pred(xs))
    ys = [x for x in xs]
    z = x
    assert z == x


def c14(a: int, xs: List[int]) -> None:
    Requires(list_pred(xs))
    ys = [a for x in xs]
    assert len(ys) == len(xs)


def c15(a: int, xs: List[int]) -> None:
    Requires(list_pred(xs))
    ys = [a for x in xs]
    assert len(ys) == 0 or ys[0] == a


def c16(a: int, xs: List[int]) -> None:
    Requires(list_pred(xs))
    ys = [a for x in xs]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(ys) == 0 or ys[0] == xs[0]
