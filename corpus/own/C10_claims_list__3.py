from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    assert len(ys) == 2


def c1(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    assert ys[0] == b


def c2(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    assert ys[1] == 3


def c3(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert ys[0] == a


def c4(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    assert len(xs) == 3


def c5(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    assert xs[1] == b


def c6(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    assert len(zs) == 2


def c7(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    assert zs[1] == b


def c8(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert zs[1] == 3


def c9(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    assert len(ws) == 1


def c10(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    assert ws[0] == b


def c11(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    vs = xs[:]
    assert len(vs) == 3


def c12(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    vs = xs[:]
    assert vs is not xs


def c13(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    vs = xs[:]
    assert vs[2] == 3


def c14(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    vs = xs[:]
    us = xs[-2:]
    assert len(us) == 2


def c15(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    vs = xs[:]
    us = xs[-2:]
    assert us[0] == b


def c16(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    vs = xs[:]
    us = xs[-2:]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert us[0] == a


def c17(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    vs = xs[:]
    us = xs[-2:]
    ts = xs[:-1]
    assert len(ts) == 2


def c18(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    vs = xs[:]
    us = xs[-2:]
    ts = xs[:-1]
    assert ts[1] == b


def c19(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    vs = xs[:]
    us = xs[-2:]
    ts = xs[:-1]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(ts) == 3


def c20(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    vs = xs[:]
    us = xs[-2:]
    ts = xs[:-1]
    ss = xs[2:1]
    assert len(ss) == 0


def c21(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    vs = xs[:]
    us = xs[-2:]
    ts = xs[:-1]
    ss = xs[2:1]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(ss) == 1


def c22(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    vs = xs[:]
    us = xs[-2:]
    ts = xs[:-1]
    ss = xs[2:1]
    rs = xs[0:77]
    assert len(rs) == 3


def c23(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    vs = xs[:]
    us = xs[-2:]
    ts = xs[:-1]
    ss = xs[2:1]
    rs = xs[0:77]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(rs) == 77


def c24(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    vs = xs[:]
    us = xs[-2:]
    ts = xs[:-1]
    ss = xs[2:1]
    rs = xs[0:77]
    qs = xs[-77:1]
    assert len(qs) == 1


def c25(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    vs = xs[:]
    us = xs[-2:]
    ts = xs[:-1]
    ss = xs[2:1]
    rs = xs[0:77]
    qs = xs[-77:1]
    assert qs[0] == a


def c26(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    vs = xs[:]
    us = xs[-2:]
    ts = xs[:-1]
    ss = xs[2:1]
    rs = xs[0:77]
    qs = xs[-77:1]
    ps = xs[5:]
    assert len(ps) == 0


def c27(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    vs = xs[:]
    us = xs[-2:]
    ts = xs[:-1]
    ss = xs[2:1]
    rs = xs[0:77]
    qs = xs[-77:1]
    ps = xs[5:]
    os = xs[-2:-1]
    assert len(os) == 1


def c28(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    vs = xs[:]
    us = xs[-2:]
    ts = xs[:-1]
    ss = xs[2:1]
    rs = xs[0:77]
    qs = xs[-77:1]
    ps = xs[5:]
    os = xs[-2:-1]
    assert os[0] == b


def c29(a: int, b: int) -> None:
    xs = [a, b, 3]
    ys = xs[1:]
    ys.append(4)
    zs = xs[:2]
    ws = xs[1:2]
    vs = xs[:]
    us = xs[-2:]
    ts = xs[:-1]
    ss = xs[2:1]
    rs = xs[0:77]
    qs = xs[-77:1]
    ps = xs[5:]
    os = xs[-2:-1]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert os[0] == 3


def c30(xs: List[int], i: int, j: int) -> None:
    Requires(list_pred(xs))
    n = len(xs)
    ys = xs[i:j]
    assert len(ys) <= n


def c31(xs: List[int], i: int, j: int) -> None:
    Requires(list_pred(xs))
    n = len(xs)
    ys = xs[i:j]
    Assert(Implies(0 <= i and i <= j and j <= n, len(ys) == j - i))


def c32(xs: List[int], i: int, j: int) -> None:
    Requires(list_pred(xs))
    n = len(xs)
    ys = xs[i:j]
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(0 <= i and i <= j, len(ys) == j - i))


def c33(xs: List[int], i: int, j: int) -> None:
    Requires(list_pred(xs))
    n = len(xs)
    ys = xs[i:j]
    Assert(Implies(i < 0 and i + n >= 0 and j == n, len(ys) == -i))


def c34(xs: List[int], i: int, j: int) -> None:
    Requires(list_pred(xs))
    n = len(xs)
    ys = xs[i:j]
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(i < 0 and j == n, len(ys) == -i))
