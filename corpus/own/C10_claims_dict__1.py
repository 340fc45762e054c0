from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(d: Dict[int, int], k: int) -> None:
    Requires(dict_pred(d))
    x = d.get(k)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x is None


def c1(d: Dict[int, int], k: int) -> None:
    Requires(dict_pred(d))
    x = d.get(k)
    Assert(Implies(k in d, x == d[k]))


def c2(d: Dict[int, int]) -> None:
    Requires(dict_pred(d))
    ks = d.keys()
    assert len(d) >= 0


def c3(d: Dict[int, int]) -> None:
    Requires(dict_pred(d))
    ks = d.keys()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(d) > 0


def c4() -> None:
    d = {}  # type: Dict[str, int]
    assert len(d) == 0


def c5() -> None:
    d = {}  # type: Dict[str, int]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 'a' in d


def c6() -> None:
    d = {}  # type: Dict[str, int]
    assert 'a' not in d


def c7() -> None:
    d = {}  # type: Dict[str, int]
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = d['a']


def c8() -> None:
    d = {}  # type: Dict[str, int]
    d['a'] = 1
    d['b'] = 2
    assert len(d) == 2


def c9() -> None:
    d = {}  # type: Dict[str, int]
    d['a'] = 1
    d['b'] = 2
    assert d['a'] == 1


def c10() -> None:
    d = {}  # type: Dict[str, int]
    d['a'] = 1
    d['b'] = 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert d['b'] == 1


def c11() -> None:
    d = {}  # type: Dict[str, int]
    d['a'] = 1
    d['b'] = 2
    assert 'b' in d


def c12() -> None:
    d = {}  # type: Dict[str, int]
    d['a'] = 1
    d['b'] = 2
    assert 'c' not in d


def c13() -> None:
    d = {'a': 1, 'a': 2}
    assert len(d) == 1


def c14() -> None:
    d = {'a': 1, 'a': 2}
    assert d['a'] == 2


def c15() -> None:
    d = {'a': 1, 'a': 2}
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert d['a'] == 1


def c16() -> None:
    d = {'a': 1, 'a': 2}
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(d) == 2


def c17(a: int, b: int) -> None:
    d = {a: 1, b: 2}
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(d) == 2


def c18(a: int, b: int) -> None:
    d = {a: 1, b: 2}
    Assert(Implies(a != b, len(d) == 2))


def c19(a: int, b: int) -> None:
    d = {a: 1, b: 2}
    assert d[b] == 2


def c20(a: int, b: int) -> None:
    d = {a: 1, b: 2}
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert d[a] == 1


def c21(a: int, b: int) -> None:
    d = {a: 1, b: 2}
    Assert(Implies(a != b, d[a] == 1))


def c22(a: int, b: int) -> None:
    d = {a: 1, b: 2}
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(a == b, d[a] == 1))


def c23(s: Set[int], a: int) -> None:
    Requires(set_pred(s))
    n = len(s)
    h = a in s
    s.add(a)
    assert a in s


def c24(s: Set[int], a: int) -> None:
    Requires(set_pred(s))
    n = len(s)
    h = a in s
    s.add(a)
    assert len(s) == (n if h else n + 1)
