from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(s: Set[int], a: int) -> None:
    Requires(set_pred(s))
    n = len(s)
    h = a in s
    s.add(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(s) == n + 1


def c1(s: Set[int], a: int) -> None:
    Requires(set_pred(s))
    n = len(s)
    h = a in s
    s.add(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(s) == n


def c2(s: Set[int], a: int) -> None:
    Requires(set_pred(s))
    n = len(s)
    h = a in s
    s.add(a)
    assert len(s) >= 1


def c3(s: Set[int], a: int) -> None:
    Requires(set_pred(s))
    n = len(s)
    h = a in s
    s.add(a)
    s.remove(a)


def c4(s: Set[int], a: int) -> None:
    Requires(set_pred(s))
    n = len(s)
    h = a in s
    s.add(a)
    #:: ExpectedOutput(call.precondition:assertion.false)
    s.remove(a + 1)


def c5(s: Set[int], a: int) -> None:
    Requires(set_pred(s))
    n = len(s)
    h = a in s
    s.add(a)
    s.remove(a)
    assert a not in s


def c6(s: Set[int], a: int) -> None:
    Requires(set_pred(s))
    n = len(s)
    h = a in s
    s.add(a)
    s.remove(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a in s


def c7(s: Set[int], a: int) -> None:
    Requires(set_pred(s))
    n = len(s)
    h = a in s
    s.add(a)
    s.remove(a)
    assert len(s) == (n - 1 if h else n)


def c8(s: Set[int], a: int) -> None:
    Requires(set_pred(s))
    n = len(s)
    h = a in s
    s.add(a)
    s.remove(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(s) == n


def c9(s: Set[int], a: int) -> None:
    Requires(set_pred(s))
    n = len(s)
    h = a in s
    s.add(a)
    s.remove(a)
    s.clear()
    assert len(s) == 0


def c10(s: Set[int], a: int) -> None:
    Requires(set_pred(s))
    n = len(s)
    h = a in s
    s.add(a)
    s.remove(a)
    s.clear()
    assert a not in s


def c11(s: Set[int], a: int) -> None:
    Requires(set_pred(s))
    n = len(s)
    h = a in s
    s.add(a)
    s.remove(a)
    s.clear()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(s) == n


def c12(s: Set[int], a: int) -> None:
    Requires(set_pred(s))
    #:: ExpectedOutput(call.precondition:assertion.false)
    s.remove(a)


def c13(s: Set[int], a: int) -> None:
    Requires(set_pred(s))
    s.add(a)


def c14(s: Set[int], a: int) -> None:
    Requires(set_pred(s))
    s.clear()


def c15(a: int, b: int) -> None:
    s = {a, b}
    assert a in s


def c16(a: int, b: int) -> None:
    s = {a, b}
    assert b in s


def c17(a: int, b: int) -> None:
    s = {a, b}
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(s) == 2


def c18(a: int, b: int) -> None:
    s = {a, b}
    assert len(s) <= 2


def c19(a: int, b: int) -> None:
    s = {a, b}
    assert len(s) >= 1


def c20(a: int, b: int) -> None:
    s = {a, b}
    Assert(Implies(a != b, len(s) == 2))


def c21(a: int, b: int) -> None:
    s = {a, b}
    Assert(Implies(a != 5 and b != 5, 5 not in s))


def c22(a: int, b: int) -> None:
    s = {a, b}
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 5 not in s


def c23(a: int, b: int) -> None:
    s = {a, b}
    t = s
    t.add(5)
    assert 5 in s


def c24(a: int, b: int) -> None:
    s = {a, b}
    t = s
    t.add(5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 5 not in s


def c25() -> None:
    s = {1, 2, 2}
    assert len(s) == 2


def c26() -> None:
    s = {1, 2, 2}
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(s) == 3


def c27() -> None:
    s = {1, 2, 2}
    s.add(2)
    assert len(s) == 2


def c28() -> None:
    s = {1, 2, 2}
    s.add(2)
    e = set()  # type: Set[int]
    assert len(e) == 0


def c29() -> None:
    s = {1, 2, 2}
    s.add(2)
    e = set()  # type: Set[int]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 1 in e


def c30() -> None:
    s = {1, 2, 2}
    s.add(2)
    e = set()  # type: Set[int]
    assert s is not e
