from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(s.update(1, 7) == PSeq(a, 7, 3))


def c1(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(len(s.update(0, 5)) == 3)


def c2(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(application.precondition:assertion.false)
    Assert(s.update(3, 1) == s.update(3, 1))


def c3(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(application.precondition:assertion.false)
    Assert(s.update(-1, 1) == s.update(-1, 1))


def c4(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(s.update(2, 1) == s.update(2, 1))


def c5(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(s.update(0, a) == s)


def c6(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(s.update(0, b) == s)


def c7(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(s == PSeq(a, b, 3))


def c8(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(s == PSeq(b, a, 3))


def c9(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(s != PSeq(a, b))


def c10(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(Forall(int, lambda i: Implies(i >= 0 and i < 3, s[i] == a or s[i] == b or s[i] == 3)))


def c11(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Forall(int, lambda i: Implies(i >= 0 and i < 3, s[i] == a or s[i] == b)))


def c12(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(Forall(s, lambda e: e == a or e == b or e == 3))


def c13(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Forall(s, lambda e: e == a or e == 3))


def c14(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(ToMS(s) == PMultiset(3, b, a))


def c15(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(ToMS(s) == PMultiset(3, a, a))


def c16(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(ToMS(s).num(3) >= 1)


def c17(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(ToMS(s).num(a) == 1)


def c18(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(len(ToMS(s)) == 3)


def c19(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    Assert(a in s)


def c20(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    Assert(b in s)


def c21(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    Assert(len(s) == 2)


def c22(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(len(s) == 1)


def c23(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(a + b in s)


def c24(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    Assert(s == PSet(b, a))


def c25(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(s == PSet(a))


def c26(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    Assert(s == PSet(b, a, b))


def c27(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    Assert(len(PSet(a, a)) == 1)


def c28(a: int, b: int) -> None:
    Requires(a != b)
    s = PSet(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(len(PSet(a, a)) == 2)
