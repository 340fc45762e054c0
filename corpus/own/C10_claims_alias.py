from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class P:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)
        self.v = v  # type: int

class Q:
    @Pure
    def __eq__(self, other: object) -> bool:
        return True


def c0() -> None:
    q = Q()
    r = Q()
    xs = [q]
    assert q in xs


def c1() -> None:
    q = Q()
    r = Q()
    xs = [q]
    assert q == r


def c2() -> None:
    q = Q()
    r = Q()
    xs = [q]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert q != r


def c3() -> None:
    p = P(1)
    r = P(1)
    xs = [p]
    assert p in xs


def c4() -> None:
    p = P(1)
    r = P(1)
    xs = [p]
    assert r not in xs


def c5() -> None:
    p = P(1)
    r = P(1)
    xs = [p]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r in xs


def c6() -> None:
    p = P(1)
    r = P(1)
    xs = [p]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert p == r


def c7() -> None:
    p = P(1)
    r = P(1)
    xs = [p]
    assert p == p


def c8() -> None:
    p = P(1)
    r = P(1)
    xs = [p]
    assert xs[0] is p


def c9() -> None:
    p = P(1)
    r = P(1)
    xs = [p]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[0] is r


def c10() -> None:
    p = P(1)
    r = P(1)
    xs = [p]
    p.v = 3
    assert xs[0].v == 3


def c11() -> None:
    p = P(1)
    r = P(1)
    xs = [p]
    p.v = 3
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert xs[0].v == 1


def c12() -> None:
    xs = [[1]]
    ys = [1]
    assert xs[0] in xs


def c13() -> None:
    d = {'a': 1}
    xs = [d, d]
    xs[0]['a'] = 2
    assert d['a'] == 2


def c14() -> None:
    d = {'a': 1}
    xs = [d, d]
    xs[0]['a'] = 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert d['a'] == 1


def c15() -> None:
    d = {'a': 1}
    xs = [d, d]
    xs[0]['a'] = 2
    assert xs[1]['a'] == 2


def c16() -> None:
    d = {'a': 1}
    xs = [d, d]
    xs[0]['a'] = 2
    assert xs[0] is xs[1]


def c17(a: int) -> None:
    xs = [a]
    t = (xs, xs)
    t[0].append(2)
    assert len(t[1]) == 2


def c18(a: int) -> None:
    xs = [a]
    t = (xs, xs)
    t[0].append(2)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(t[1]) == 1


def c19(a: int) -> None:
    xs = [a]
    t = (xs, xs)
    t[0].append(2)
    assert t[0] is t[1]


def c20(a: float) -> None:
    xs = [a]
    assert len(xs) == 1


def c21(a: float) -> None:
    xs = [a]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a == xs[0]


def c22(p: bool) -> None:
    xs = [1, 0]
    assert xs.index(1) == 0


def c23() -> None:
    s = {1, 2}
    assert 3 not in s
