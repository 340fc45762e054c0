from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int, b: int) -> None:
    xs = [a, b]
    ys = xs + [5]
    assert len(xs) == 2


def c1(a: int, b: int) -> None:
    xs = [a, b]
    ys = xs + [5]
    assert ys[0] == a


def c2(a: int, b: int) -> None:
    xs = [a, b]
    ys = xs + [5]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert ys[0] == b


def c3(a: int, b: int) -> None:
    xs = [a, b]
    ys = xs + [5]
    assert ys is not xs


def c4(a: int, b: int) -> None:
    xs = [a, b]
    ys = xs + [5]
    zs = xs * 2
    assert len(zs) == 4


def c5(a: int, b: int) -> None:
    xs = [a, b]
    ys = xs + [5]
    zs = xs * 2
    assert zs[2] == a


def c6(a: int, b: int) -> None:
    xs = [a, b]
    ys = xs + [5]
    zs = xs * 2
    assert zs[3] == b


def c7(a: int, b: int) -> None:
    xs = [a, b]
    ys = xs + [5]
    zs = xs * 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert zs[3] == a


def c8(a: int, b: int) -> None:
    xs = [a, b]
    ys = xs + [5]
    zs = xs * 2
    ws = xs * -1
    assert len(ws) == 0


def c9(a: int, b: int) -> None:
    xs = [a, b]
    ys = xs + [5]
    zs = xs * 2
    ws = xs * -1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(ws) == 2


def c10(xs: List[int]) -> None:
    Requires(list_pred(xs))
    #:: ExpectedOutput(application.precondition:assertion.false)
    y = xs[0]


def c11(xs: List[int]) -> None:
    Requires(list_pred(xs))
    #:: ExpectedOutput(application.precondition:assertion.false)
    y = xs[-1]


def c12(xs: List[int]) -> None:
    Requires(list_pred(xs))
    #:: ExpectedOutput(call.precondition:assertion.false)
    xs[0] = 1


def c13(xs: List[int]) -> None:
    Requires(list_pred(xs))
    xs.append(3)


def c14(xs: List[int]) -> None:
    Requires(list_pred(xs))
    #:: ExpectedOutput(call.precondition:assertion.false)
    xs.remove(5)


def c15(xs: List[int]) -> None:
    Requires(list_pred(xs))
    #:: ExpectedOutput(application.precondition:assertion.false)
    y = xs.index(5)


def c16(xs: List[int]) -> None:
    Requires(list_pred(xs))
    y = len(xs)


def c17(xs: List[int]) -> None:
    Requires(list_pred(xs))
    xs.insert(50, 1)


def c18(xs: List[int]) -> None:
    Requires(list_pred(xs))
    xs.insert(-50, 1)


def c19(xs: List[int]) -> None:
    Requires(list_pred(xs))
    xs.extend([1])


def c20(xs: List[int]) -> None:
    Requires(list_pred(xs))
    y = xs.copy()


def c21(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    y = xs[0]


def c22(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    y = xs[-1]


def c23(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    y = xs[-2]


def c24(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    #:: ExpectedOutput(application.precondition:assertion.false)
    y = xs[-3]


def c25(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    y = xs[1]


def c26(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    #:: ExpectedOutput(application.precondition:assertion.false)
    y = xs[2]


def c27(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    y = xs[len(xs) - 1]


def c28(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    #:: ExpectedOutput(application.precondition:assertion.false)
    y = xs[len(xs)]


def c29(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    y = xs[-len(xs)]


def c30(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    #:: ExpectedOutput(application.precondition:assertion.false)
    y = xs[-len(xs) - 1]


def c31(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    xs[1] = 4


def c32(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    #:: ExpectedOutput(call.precondition:assertion.false)
    xs[2] = 4


def c33(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    #:: ExpectedOutput(call.precondition:assertion.false)
    xs[len(xs)] = 4


def c34(xs: List[int], i: int) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) > 1)
    Requires(0 <= i and i < len(xs))
    y = xs[i]
