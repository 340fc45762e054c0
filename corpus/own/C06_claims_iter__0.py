from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(l: List[int]) -> None:
    Requires(list_pred(l))
    s = 0
    for x in l:
        Invariant(s == len(Previous(x)))
        s += 1
    assert s == len(l)


def c1(l: List[int]) -> None:
    Requires(list_pred(l))
    s = 0
    for x in l:
        Invariant(s == len(Previous(x)))
        s += 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert s == 3


def c2(l: List[int]) -> None:
    Requires(list_pred(l))
    s = 0
    for x in l:
        Invariant(s == len(Previous(x)))
        s += 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert s >= 1


def c3(l: List[int]) -> None:
    Requires(list_pred(l))
    s = 0
    for x in l:
        Invariant(s == len(Previous(x)))
        s += 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(l) == 3


def c4(n: int) -> None:
    Requires(n >= 0)
    s = 0
    for i in range(n):
        Invariant(s == len(Previous(i)))
        s += 1
    assert s == n


def c5(n: int) -> None:
    Requires(n >= 0)
    s = 0
    for i in range(n):
        Invariant(s == len(Previous(i)))
        s += 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert s == n - 1


def c6(n: int) -> None:
    Requires(n >= 0)
    s = 0
    for i in range(n):
        Invariant(s == len(Previous(i)))
        s += 1
    assert s >= 0


def c7(n: int) -> None:
    Requires(n >= 0)
    s = 0
    for i in range(n):
        Invariant(s == len(Previous(i)))
        s += 1
    s = 0
    for i in range(3, n + 3):
        Invariant(s == len(Previous(i)))
        Invariant(Implies(len(Previous(i)) >= 0, s >= 0))
        s += 1
    assert s == n


def c8(n: int) -> None:
    Requires(n >= 0)
    s = 0
    for i in range(n):
        Invariant(s == len(Previous(i)))
        s += 1
    s = 0
    for i in range(3, n + 3):
        Invariant(s == len(Previous(i)))
        Invariant(Implies(len(Previous(i)) >= 0, s >= 0))
        s += 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert s == n + 3


def c9(n: int) -> None:
    Requires(n >= 0)
    k = -1
    for i in range(2, n + 2):
        Invariant(Implies(len(Previous(i)) == 0, k == -1))
        Invariant(Implies(len(Previous(i)) > 0, k == len(Previous(i)) + 1))
        k = i
    Assert(Implies(n > 0, k == n + 1))


def c10(n: int) -> None:
    Requires(n >= 0)
    k = -1
    for i in range(2, n + 2):
        Invariant(Implies(len(Previous(i)) == 0, k == -1))
        Invariant(Implies(len(Previous(i)) > 0, k == len(Previous(i)) + 1))
        k = i
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(n > 0, k == n + 2))


def c11(n: int) -> None:
    Requires(n >= 0)
    k = -1
    for i in range(2, n + 2):
        Invariant(Implies(len(Previous(i)) == 0, k == -1))
        Invariant(Implies(len(Previous(i)) > 0, k == len(Previous(i)) + 1))
        k = i
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(n > 0, k == n))


def c12(n: int) -> None:
    Requires(n >= 0)
    k = -1
    for i in range(2, n + 2):
        Invariant(Implies(len(Previous(i)) == 0, k == -1))
        Invariant(Implies(len(Previous(i)) > 0, k == len(Previous(i)) + 1))
        k = i
    Assert(Implies(n == 0, k == -1))


def c13(n: int) -> None:
    Requires(n >= 0)
    k = -1
    for i in range(2, n + 2):
        Invariant(Implies(len(Previous(i)) == 0, k == -1))
        Invariant(Implies(len(Previous(i)) > 0, k == len(Previous(i)) + 1))
        k = i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert k == n + 1


def c14(n: int) -> None:
    Requires(n >= 0)
    k = -1
    for i in range(n):
        Invariant(k >= -1)
        Invariant(Implies(n > 0, i >= 0 and i < n))
        k = i
    Assert(Implies(n > 0, i == n - 1))


def c15(n: int) -> None:
    Requires(n >= 0)
    k = -1
    for i in range(n):
        Invariant(k >= -1)
        Invariant(Implies(n > 0, i >= 0 and i < n))
        k = i
    assert k >= -1


def c16(n: int) -> None:
    Requires(n >= 0)
    k = -1
    for i in range(n):
        Invariant(k >= -1)
        Invariant(Implies(n > 0, i >= 0 and i < n))
        k = i
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert k == n


def c17(l: List[int]) -> None:
    Requires(list_pred(l))
    found = False
    for x in l:
        Invariant(not found)
        Invariant(not (5 in Previous(x)))
        if x == 5:
            found = True
            break
    Assert(Implies(not found, not (5 in l)))


def c18(l: List[int]) -> None:
    Requires(list_pred(l))
    found = False
    for x in l:
        Invariant(not found)
        Invariant(not (5 in Previous(x)))
        if x == 5:
            found = True
            break
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert found


def c19(l: List[int]) -> None:
    Requires(list_pred(l))
    found = False
    for x in l:
        Invariant(not found)
        Invariant(not (5 in Previous(x)))
        if x == 5:
            found = True
            break
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert not found


def c20(l: List[int]) -> None:
    Requires(list_pred(l))
    c = 0
    for x in l:
        Invariant(c >= 0 and c <= len(Previous(x)))
        if x < 0:
            continue
        c += 1
    assert c <= len(l)


def c21(l: List[int]) -> None:
    Requires(list_pred(l))
    c = 0
    for x in l:
        Invariant(c >= 0 and c <= len(Previous(x)))
        if x < 0:
            continue
        c += 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c == len(l)


def c22(l: List[int]) -> None:
    Requires(list_pred(l))
    c = 0
    for x in l:
        Invariant(c >= 0 and c <= len(Previous(x)))
        if x < 0:
            continue
        c += 1
    assert c >= 0


def c23(l: List[int]) -> None:
    Requires(list_pred(l))
    c = 0
    for x in l:
        Invariant(c >= 0 and c <= len(Previous(x)))
        if x < 0:
            continue
        c += 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c > 0


def c24(l: List[int]) -> None:
    Requires(list_pred(l))
    c = 0
    e = 0
    for x in l:
        Invariant(c == len(Previous(x)) and e == 0)
        c += 1
    else:
        e = 1
    assert e == 1


def c25(l: List[int]) -> None:
    Requires(list_pred(l))
    c = 0
    e = 0
    for x in l:
        Invariant(c == len(Previous(x)) and e == 0)
        c += 1
    else:
        e = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert e == 0


def c26(l: List[int]) -> None:
    Requires(list_pred(l))
    c = 0
    e = 0
    for x in l:
        Invariant(c == len(Previous(x)) and e == 0)
        c += 1
    else:
        e = 1
    assert c == len(l)


def c27(l: List[int]) -> None:
    Requires(list_pred(l))
    e = 0
    for x in l:
        Invariant(e == 0)
        if x == 5:
            break
    else:
        e = 1
    assert e == 0 or e == 1


def c28(l: List[int]) -> None:
    Requires(list_pred(l))
    e = 0
    for x in l:
        Invariant(e == 0)
        if x == 5:
            break
    else:
        e = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert e == 1


def c29(l: List[int]) -> None:
    Requires(list_pred(l))
    e = 0
    for x in l:
        Invariant(e == 0)
        if x == 5:
            break
    else:
        e = 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert e == 0


def c30(l: List[int]) -> None:
    Requires(list_pred(l))
    e = 0
    for x in l:
        Invariant(e == 0)
        if x == 5:
            break
    else:
        e = 1
    Assert(Implies(len(l) == 0, e == 1))
