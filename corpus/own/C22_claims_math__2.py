from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    Assert(len(s + PSet(a)) == 2)


def c1(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(len(s + PSet(a)) == 3)


def c2(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    Assert(s + PSet(a) == s)


def c3(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    Assert(s - PSet(a) == PSet(b))


def c4(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(s - PSet(a) == s)


def c5(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(a in s - PSet(a))


def c6(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    Assert(not (a in s - PSet(a)))


def c7(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    Assert(b in s - PSet(a))


def c8(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    Assert((s - PSet(a)) + PSet(a) == s)


def c9(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    Assert(len(s - PSet(b)) == 1)


def c10(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    Assert(s - s == PSet(a) - PSet(a))


def c11(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    Assert(PSet(1, 2) + PSet(3) == PSet(3, 2, 1))


def c12(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    Assert(2 in PSet(1, 2) + PSet(3))


def c13(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(4 in PSet(1, 2) + PSet(3))


def c14(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    Assert(Forall(int, lambda i: Implies(i in s, i == a or i == b)))


def c15(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Forall(int, lambda i: Implies(i in s, i == a)))


def c16(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    Assert(Forall(s, lambda i: i == a or i == b))


def c17(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Forall(s, lambda i: i == a))


def c18(a: int, b: int) -> None:
    s = PSet(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(len(s) == 2)


def c19(a: int, b: int) -> None:
    s = PSet(a, b)
    Assert(len(s) >= 1)


def c20(a: int, b: int) -> None:
    s = PSet(a, b)
    Assert(len(s) <= 2)


def c21(a: int, b: int) -> None:
    s = PSet(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(s == PSet(a))


def c22(a: int, b: int) -> None:
    s = PSet(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(PSet(a) - PSet(b) == PSet(a))


def c23(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    Assert(m.num(a) == 2)


def c24(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    Assert(m.num(b) == 1)


def c25(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(m.num(a) == 1)


def c26(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(m.num(a) == 3)


def c27(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    Assert(len(m) == 3)


def c28(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(len(m) == 2)


def c29(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    Assert(m == PMultiset(a, a, b))


def c30(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(m == PMultiset(a, b, b))


def c31(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(m == PMultiset(a, b))


def c32(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    Assert(m + PMultiset(b) == PMultiset(a, a, b, b))


def c33(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    Assert((m + m).num(a) == 4)


def c34(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert((m + m).num(a) == 2)


def c35(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    Assert((m - PMultiset(a)).num(a) == 1)


def c36(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert((m - PMultiset(a)).num(a) == 0)


def c37(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    Assert(m - PMultiset(a) == PMultiset(a, b))
