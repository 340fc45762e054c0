from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int, b: int) -> None:
    xs = [a, b, 3]
    assert len(xs) == 3


def c1(a: int, b: int) -> None:
    xs = [a, b, 3]
    assert xs[0] == a and xs[1] == b and xs[2] == 3


def c2(a: int, b: int) -> None:
    xs = [a, b, 3]
    assert xs[-1] == 3


def c3(a: int, b: int) -> None:
    xs = [a, b, 3]
    assert xs[-3] == a


def c4(a: int, b: int) -> None:
    xs = [a, b, 3]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[-2] == a


def c5(a: int, b: int) -> None:
    xs = [a, b, 3]
    assert 3 in xs


def c6(a: int, b: int) -> None:
    xs = [a, b, 3]
    assert a in xs


def c7(a: int, b: int) -> None:
    xs = [a, b, 3]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 4 in xs


def c8(a: int, b: int) -> None:
    xs = [a, b, 3]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[1] == a


def c9(a: int, b: int) -> None:
    xs = [a, b, 3]
    xs.append(a)
    assert len(xs) == 4


def c10(a: int, b: int) -> None:
    xs = [a, b, 3]
    xs.append(a)
    assert xs[3] == a


def c11(a: int, b: int) -> None:
    xs = [a, b, 3]
    xs.append(a)
    assert xs[-1] == a


def c12(a: int, b: int) -> None:
    xs = [a, b, 3]
    xs.append(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[-1] == 3


def c13(a: int, b: int) -> None:
    xs = [a, b, 3]
    xs.append(a)
    assert xs[2] == 3


def c14(a: int, b: int) -> None:
    xs = [a, b, 3]
    xs.append(a)
    xs[1] = 7
    assert xs[1] == 7


def c15(a: int, b: int) -> None:
    xs = [a, b, 3]
    xs.append(a)
    xs[1] = 7
    assert xs[0] == a


def c16(a: int, b: int) -> None:
    xs = [a, b, 3]
    xs.append(a)
    xs[1] = 7
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[1] == b


def c17(a: int, b: int) -> None:
    xs = [a, b, 3]
    xs.append(a)
    xs[1] = 7
    assert len(xs) == 4


def c18(a: int, b: int) -> None:
    xs = [a, b, 3]
    xs.append(a)
    xs[1] = 7
    ys = xs
    ys.append(8)
    assert len(xs) == 5


def c19(a: int, b: int) -> None:
    xs = [a, b, 3]
    xs.append(a)
    xs[1] = 7
    ys = xs
    ys.append(8)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(xs) == 4


def c20(a: int, b: int) -> None:
    xs = [a, b, 3]
    xs.append(a)
    xs[1] = 7
    ys = xs
    ys.append(8)
    assert xs[4] == 8


def c21(a: int, b: int) -> None:
    xs = [a, b, 3]
    xs.append(a)
    xs[1] = 7
    ys = xs
    ys.append(8)
    assert xs is ys


def c22(a: int, b: int) -> None:
    xs = [a, b]
    ys = [a, b]
    assert xs is not ys


def c23(a: int, b: int) -> None:
    xs = [a, b]
    ys = [a, b]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs is ys


def c24(a: int, b: int) -> None:
    xs = [a, b]
    ys = [a, b]
    assert xs == ys


def c25(a: int, b: int) -> None:
    xs = [a, b]
    ys = [a, b]
    ys.append(1)
    assert xs != ys


def c26(a: int, b: int) -> None:
    xs = [a, b]
    ys = [a, b]
    ys.append(1)
    assert len(xs) == 2


def c27(a: int, b: int) -> None:
    xs = [a, b]
    ys = [a, b]
    ys.append(1)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(xs) == 3


def c28(a: int, b: int) -> None:
    xs = [a, b]
    ys = [a, b]
    ys.append(1)
    xs.extend(ys)
    assert len(xs) == 5


def c29(a: int, b: int) -> None:
    xs = [a, b]
    ys = [a, b]
    ys.append(1)
    xs.extend(ys)
    assert xs[2] == a


def c30(a: int, b: int) -> None:
    xs = [a, b]
    ys = [a, b]
    ys.append(1)
    xs.extend(ys)
    assert xs[4] == 1


def c31(a: int, b: int) -> None:
    xs = [a, b]
    ys = [a, b]
    ys.append(1)
    xs.extend(ys)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[4] == b


def c32(a: int, b: int) -> None:
    xs = [a, b]
    ys = [a, b]
    ys.append(1)
    xs.extend(ys)
    assert len(ys) == 3


def c33(a: int, b: int) -> None:
    xs = [a, b]
    ys = xs + [5]
    assert len(ys) == 3


def c34(a: int, b: int) -> None:
    xs = [a, b]
    ys = xs + [5]
    assert ys[2] == 5
