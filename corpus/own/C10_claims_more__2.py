from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0() -> None:
    b = b'abc'
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b == b'abd'


def c1() -> None:
    b = b'abc'
    assert b != b'abd'


def c2() -> None:
    b = b'abc'
    d = bytes([1, 2, 3])
    #:: ExpectedOutput(application.precondition:assertion.false)
    assert d[1] == 1


def c3(a: int) -> None:
    Requires(a >= 0 and a <= 5)
    r = range(a, 10)
    assert len(r) == 10 - a


def c4(a: int) -> None:
    Requires(a >= 0 and a <= 5)
    r = range(a, 10)
    assert r[0] == a


def c5(a: int) -> None:
    Requires(a >= 0 and a <= 5)
    r = range(a, 10)
    assert r[1] == a + 1


def c6(a: int) -> None:
    Requires(a >= 0 and a <= 5)
    r = range(a, 10)
    assert r[-1] == 9


def c7(a: int) -> None:
    Requires(a >= 0 and a <= 5)
    r = range(a, 10)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r[-1] == 10


def c8(a: int) -> None:
    Requires(a >= 0 and a <= 5)
    r = range(a, 10)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 10 in r


def c9(a: int) -> None:
    Requires(a >= 0 and a <= 5)
    r = range(a, 10)
    assert 9 in r


def c10(a: int) -> None:
    Requires(a >= 0 and a <= 5)
    r = range(a, 10)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(r) == 10


def c11(a: int) -> None:
    Requires(a >= 0 and a <= 5)
    r = range(a, 10)
    q = r[1:]
    assert len(q) == 9 - a


def c12(a: int) -> None:
    Requires(a >= 0 and a <= 5)
    r = range(a, 10)
    q = r[1:]
    assert q[0] == a + 1


def c13(a: int) -> None:
    Requires(a >= 0 and a <= 5)
    r = range(a, 10)
    q = r[1:]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert q[0] == a


def c14(a: int) -> None:
    Requires(a >= 0 and a <= 5)
    r = range(a, 10)
    q = r[:2]
    assert len(q) == 2


def c15(a: int) -> None:
    r = range(3)
    assert len(r) == 3


def c16(a: int) -> None:
    r = range(3)
    assert r[2] == 2


def c17(a: int) -> None:
    r = range(3)
    assert r[0] == 0


def c18(a: int) -> None:
    r = range(3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 3 in r


def c19(a: int) -> None:
    r = range(3)
    assert 2 in r


def c20(a: int) -> None:
    r = range(3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert -1 in r


def c21(a: int) -> None:
    r = range(2, 11, 3)
    assert r[0] == 2


def c22(a: int) -> None:
    r = range(2, 11, 3)
    assert r[1] == 5


def c23(a: int) -> None:
    r = range(2, 11, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r[0] == 0


def c24(a: int) -> None:
    r = range(2, 11, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 6 in r


def c25(a: int) -> None:
    r = range(2, 11, 3)
    assert len(r) == 3


def c26(a: int) -> None:
    r = range(2, 11, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(r) == 9


def c27() -> None:
    d = {1: 5, 2: 6}
    ks = d.keys()
    vs = d.values()
    d[3] = 9
    assert 3 in d


def c28() -> None:
    d = {1: 5, 2: 6}
    ks = d.keys()
    vs = d.values()
    d[3] = 9
    assert d[3] == 9


def c29(xs: List[int]) -> None:
    Requires(list_pred(xs))
    Requires(len(xs) == 2)
    assert len(sorted(xs)) == 2


def c30(xs: List[int], a: int) -> None:
    Requires(list_pred(xs))
    Requires(a in xs)
    i = xs.index(a)
    assert i >= 0
