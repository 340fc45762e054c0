from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int, b: int) -> None:
    d = {1: a, 2: b}
    assert len(d) == 2


def c1(a: int, b: int) -> None:
    d = {1: a, 2: b}
    assert d[1] == a


def c2(a: int, b: int) -> None:
    d = {1: a, 2: b}
    assert d[2] == b


def c3(a: int, b: int) -> None:
    d = {1: a, 2: b}
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert d[2] == a


def c4(a: int, b: int) -> None:
    d = {1: a, 2: b}
    assert 1 in d


def c5(a: int, b: int) -> None:
    d = {1: a, 2: b}
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 3 in d


def c6(a: int, b: int) -> None:
    d = {1: a, 2: b}
    assert 3 not in d


def c7(a: int, b: int) -> None:
    d = {1: a, 2: b}
    d[3] = 7
    assert len(d) == 3


def c8(a: int, b: int) -> None:
    d = {1: a, 2: b}
    d[3] = 7
    assert d[3] == 7


def c9(a: int, b: int) -> None:
    d = {1: a, 2: b}
    d[3] = 7
    assert d[1] == a


def c10(a: int, b: int) -> None:
    d = {1: a, 2: b}
    d[3] = 7
    assert 3 in d


def c11(a: int, b: int) -> None:
    d = {1: a, 2: b}
    d[3] = 7
    d[1] = 9
    assert len(d) == 3


def c12(a: int, b: int) -> None:
    d = {1: a, 2: b}
    d[3] = 7
    d[1] = 9
    assert d[1] == 9


def c13(a: int, b: int) -> None:
    d = {1: a, 2: b}
    d[3] = 7
    d[1] = 9
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert d[1] == a


def c14(a: int, b: int) -> None:
    d = {1: a, 2: b}
    d[3] = 7
    d[1] = 9
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(d) == 4


def c15(a: int, b: int) -> None:
    d = {1: a, 2: b}
    d[3] = 7
    d[1] = 9
    e = d
    e[4] = 4
    assert 4 in d


def c16(a: int, b: int) -> None:
    d = {1: a, 2: b}
    d[3] = 7
    d[1] = 9
    e = d
    e[4] = 4
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 4 not in d


def c17(d: Dict[int, int], k: int) -> None:
    Requires(dict_pred(d))
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = d[k]


def c18(d: Dict[int, int], k: int) -> None:
    Requires(dict_pred(d))
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = d[1]


def c19(d: Dict[int, int], k: int) -> None:
    Requires(dict_pred(d))
    d[k] = 4


def c20(d: Dict[int, int], k: int) -> None:
    Requires(dict_pred(d))
    x = d.get(k)


def c21(d: Dict[int, int], k: int) -> None:
    Requires(dict_pred(d))
    x = len(d)


def c22(d: Dict[int, int], k: int) -> None:
    Requires(dict_pred(d))
    n = len(d)
    h = k in d
    d[k] = 5
    assert d[k] == 5


def c23(d: Dict[int, int], k: int) -> None:
    Requires(dict_pred(d))
    n = len(d)
    h = k in d
    d[k] = 5
    assert len(d) == (n if h else n + 1)


def c24(d: Dict[int, int], k: int) -> None:
    Requires(dict_pred(d))
    n = len(d)
    h = k in d
    d[k] = 5
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(d) == n


def c25(d: Dict[int, int], k: int) -> None:
    Requires(dict_pred(d))
    n = len(d)
    h = k in d
    d[k] = 5
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(d) == n + 1


def c26(d: Dict[int, int], k: int) -> None:
    Requires(dict_pred(d))
    n = len(d)
    h = k in d
    d[k] = 5
    assert k in d


def c27(d: Dict[int, int], k: int) -> None:
    Requires(dict_pred(d))
    n = len(d)
    h = k in d
    d[k] = 5
    assert len(d) > 0


def c28(d: Dict[int, int], k: int) -> None:
    Requires(dict_pred(d))
    n = len(d)
    h = k in d
    d[k] = 5
    x = d[k]


def c29(d: Dict[int, int], k: int) -> None:
    Requires(dict_pred(d))
    n = len(d)
    h = k in d
    d[k] = 5
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = d[k + 1]


def c30(d: Dict[int, int], k: int) -> None:
    Requires(dict_pred(d))
    x = d.get(k)
    Assert(Implies(k in d, x is not None))


def c31(d: Dict[int, int], k: int) -> None:
    Requires(dict_pred(d))
    x = d.get(k)
    Assert(Implies(k not in d, x is None))


def c32(d: Dict[int, int], k: int) -> None:
    Requires(dict_pred(d))
    x = d.get(k)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x is not None
