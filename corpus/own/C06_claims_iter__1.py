from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int, b: int) -> None:
    l = [a, b]
    m = [x + 1 for x in l]
    assert len(m) == 2


def c1(a: int, b: int) -> None:
    l = [a, b]
    m = [x + 1 for x in l]
    assert m[0] == a + 1


def c2(a: int, b: int) -> None:
    l = [a, b]
    m = [x + 1 for x in l]
    assert m[1] == b + 1


def c3(a: int, b: int) -> None:
    l = [a, b]
    m = [x + 1 for x in l]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert m[0] == b + 1


def c4(a: int, b: int) -> None:
    l = [a, b]
    m = [x + 1 for x in l]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert m[1] == b


def c5(a: int, b: int) -> None:
    l = [a, b]
    m = [x + 1 for x in l]
    assert l[0] == a


def c6(a: int, b: int) -> None:
    l = [a, b]
    m = [x + 1 for x in l]
    assert m is not l


def c7(l: List[int]) -> None:
    Requires(list_pred(l))
    m = [x * 2 for x in l]
    assert len(m) == len(l)


def c8(l: List[int]) -> None:
    Requires(list_pred(l))
    m = [x * 2 for x in l]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(m) == 2


def c9(l: List[int]) -> None:
    Requires(list_pred(l))
    m = [x * 2 for x in l]
    Assert(Forall(int, lambda i: Implies(i >= 0 and i < len(l), m[i] == l[i] * 2)))


def c10(l: List[int]) -> None:
    Requires(list_pred(l))
    m = [x * 2 for x in l]
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Forall(int, lambda i: Implies(i >= 0 and i < len(l), m[i] == l[i])))


def c11(n: int) -> None:
    Requires(n >= 0)
    i = 0
    s = 0
    while i < n:
        Invariant(i >= 0 and i <= n)
        Invariant(2 * s == i * (i - 1))
        s += i
        i += 1
    assert i == n


def c12(n: int) -> None:
    Requires(n >= 0)
    i = 0
    s = 0
    while i < n:
        Invariant(i >= 0 and i <= n)
        Invariant(2 * s == i * (i - 1))
        s += i
        i += 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert i == n + 1


def c13(n: int) -> None:
    Requires(n >= 0)
    i = 0
    s = 0
    while i < n:
        Invariant(i >= 0 and i <= n)
        Invariant(2 * s == i * (i - 1))
        s += i
        i += 1
    assert 2 * s == n * (n - 1)


def c14(n: int) -> None:
    Requires(n >= 0)
    i = 0
    s = 0
    while i < n:
        Invariant(i >= 0 and i <= n)
        Invariant(2 * s == i * (i - 1))
        s += i
        i += 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 2 * s == n * (n + 1)


def c15(n: int) -> None:
    Requires(n >= 0)
    i = 0
    s = 0
    while i < n:
        Invariant(i >= 0 and i <= n)
        Invariant(2 * s == i * (i - 1))
        s += i
        i += 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert s == 0


def c16(n: int) -> None:
    i = 0
    while i < n:
        Invariant(i >= 0)
        i += 1
    assert i >= n


def c17(n: int) -> None:
    i = 0
    while i < n:
        Invariant(i >= 0)
        i += 1
    Assert(Implies(n >= 0, i >= n))


def c18(n: int) -> None:
    i = 0
    while i < n:
        Invariant(i >= 0)
        i += 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert i == n


def c19(n: int) -> None:
    i = 0
    while i < n:
        Invariant(i >= 0)
        i += 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert i == 0


def c20(n: int, m: int) -> None:
    Requires(n >= 0 and m >= 0)
    t = 0
    i = 0
    while i < n:
        Invariant(0 <= i and i <= n)
        Invariant(t == i * m)
        j = 0
        while j < m:
            Invariant(0 <= j and j <= m)
            Invariant(t == i * m + j)
            Invariant(i < n)
            t += 1
            j += 1
        i += 1
    assert t == n * m


def c21(n: int, m: int) -> None:
    Requires(n >= 0 and m >= 0)
    t = 0
    i = 0
    while i < n:
        Invariant(0 <= i and i <= n)
        Invariant(t == i * m)
        j = 0
        while j < m:
            Invariant(0 <= j and j <= m)
            Invariant(t == i * m + j)
            Invariant(i < n)
            t += 1
            j += 1
        i += 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t == n + m


def c22(n: int, m: int) -> None:
    Requires(n >= 0 and m >= 0)
    t = 0
    i = 0
    while i < n:
        Invariant(0 <= i and i <= n)
        Invariant(t == i * m)
        j = 0
        while j < m:
            Invariant(0 <= j and j <= m)
            Invariant(t == i * m + j)
            Invariant(i < n)
            t += 1
            j += 1
        i += 1
    assert i == n


def c23(d: Dict[int, int]) -> None:
    Requires(dict_pred(d))
    c = 0
    for k in d:
        Invariant(c == len(Previous(k)))
        Invariant(Implies(len(d) > 0, k in d))
        c += 1
    assert c == len(d)


def c24(d: Dict[int, int]) -> None:
    Requires(dict_pred(d))
    c = 0
    for k in d:
        Invariant(c == len(Previous(k)))
        Invariant(Implies(len(d) > 0, k in d))
        c += 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c == 2


def c25(d: Dict[int, int]) -> None:
    Requires(dict_pred(d))
    c = 0
    for k in d:
        Invariant(c == len(Previous(k)))
        Invariant(Implies(len(d) > 0, k in d))
        c += 1
    Assert(Implies(len(d) > 0, k in d))


def c26(s: Set[int]) -> None:
    Requires(set_pred(s))
    c = 0
    for k in s:
        Invariant(c == len(Previous(k)))
        Invariant(Implies(len(s) > 0, k in s))
        c += 1
    assert c == len(s)


def c27(s: Set[int]) -> None:
    Requires(set_pred(s))
    c = 0
    for k in s:
        Invariant(c == len(Previous(k)))
        Invariant(Implies(len(s) > 0, k in s))
        c += 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c == 2


def c28(s: Set[int]) -> None:
    Requires(set_pred(s))
    c = 0
    for k in s:
        Invariant(c == len(Previous(k)))
        Invariant(Implies(len(s) > 0, k in s))
        c += 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c >= 1
