from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert(s.update(2, 255) == s.update(2, 255))


def c1(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    #:: ExpectedOutput(application.precondition:assertion.false)
    Assert(s.update(2, 256) == s.update(2, 256))


def c2(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    #:: ExpectedOutput(application.precondition:assertion.false)
    Assert(s.update(2, -1) == s.update(2, -1))


def c3(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    #:: ExpectedOutput(application.precondition:assertion.false)
    Assert(PByteSeq(a, 256) == PByteSeq(a, 256))


def c4(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    #:: ExpectedOutput(application.precondition:assertion.false)
    Assert(PByteSeq(-1) == PByteSeq(-1))


def c5(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert(PByteSeq(a, 255) == PByteSeq(a, 255))


def c6(l: List[int]) -> None:
    Requires(list_pred(l))
    s = ToSeq(l)
    Assert(len(s) == len(l))


def c7(l: List[int]) -> None:
    Requires(list_pred(l))
    s = ToSeq(l)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(len(s) == 3)


def c8(l: List[int]) -> None:
    Requires(list_pred(l))
    s = ToSeq(l)
    Assert(Forall(int, lambda i: Implies(i >= 0 and i < len(l), s[i] == l[i])))


def c9(l: List[int]) -> None:
    Requires(list_pred(l))
    s = ToSeq(l)
    Assert(Forall(l, lambda e: e in s))


def c10(l: List[int]) -> None:
    Requires(list_pred(l))
    s = ToSeq(l)
    l.append(4)
    Assert(ToSeq(l) == s + PSeq(4))


def c11(l: List[int]) -> None:
    Requires(list_pred(l))
    s = ToSeq(l)
    l.append(4)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(ToSeq(l) == s)


def c12(l: List[int]) -> None:
    Requires(list_pred(l))
    s = ToSeq(l)
    l.append(4)
    Assert(ToSeq(l).take(len(s)) == s)


def c13(l: List[int]) -> None:
    Requires(list_pred(l))
    s = ToSeq(l)
    l.append(4)
    Assert(len(ToSeq(l)) == len(s) + 1)


def c14(l: List[int]) -> None:
    Requires(list_pred(l))
    s = ToSeq(l)
    l.append(4)
    Assert(ToMS(ToSeq(l)) == ToMS(s) + PMultiset(4))


def c15(l: List[int]) -> None:
    Requires(list_pred(l))
    s = ToSeq(l)
    l.append(4)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(ToMS(ToSeq(l)) == ToMS(s))


def c16(l: List[int]) -> None:
    Requires(list_pred(l))
    s = ToSeq(l)
    l.append(4)
    l.reverse()
    Assert(ToSeq(l)[0] == 4)


def c17(l: List[int]) -> None:
    Requires(list_pred(l))
    s = ToSeq(l)
    l.append(4)
    l.reverse()
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(ToSeq(l) == PSeq(4) + s)


def c18(a: int, b: int) -> None:
    l = [a, b, a]
    Assert(ToSeq(l) == PSeq(a, b, a))


def c19(a: int, b: int) -> None:
    l = [a, b, a]
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(ToSeq(l) == PSeq(a, a, b))


def c20(a: int, b: int) -> None:
    l = [a, b, a]
    Assert(ToMS(ToSeq(l)) == PMultiset(b, a, a))


def c21(a: int, b: int) -> None:
    l = [a, b, a]
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(ToMS(ToSeq(l)) == PMultiset(b, b, a))


def c22(a: int, b: int) -> None:
    l = [a, b, a]
    l[1] = a
    Assert(ToSeq(l) == PSeq(a, a, a))


def c23(a: int, b: int) -> None:
    l = [a, b, a]
    l[1] = a
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(ToSeq(l) == PSeq(a, b, a))


def c24(a: int, b: int) -> None:
    l = [a, b, a]
    l[1] = a
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(ToMS(ToSeq(l)).num(b) == 1)


def c25(a: str, b: str) -> None:
    s = PSeq(a, b)
    Assert(a in s)


def c26(a: str, b: str) -> None:
    s = PSeq(a, b)
    Assert(s[1] == b)


def c27(a: str, b: str) -> None:
    s = PSeq(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(s[0] == b)


def c28(a: str, b: str) -> None:
    s = PSeq(a, b)
    Assert(s + s == PSeq(a, b, a, b))


def c29(a: str, b: str) -> None:
    s = PSeq(a, b)
    Assert(s.update(0, b) == PSeq(b, b))


def c30(a: str, b: str) -> None:
    s = PSeq(a, b)
    Assert(PSet(a, b) == PSet(b, a))


def c31(a: str, b: str) -> None:
    s = PSeq(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(PSet(a) == PSet(b))


def c32(a: str, b: str) -> None:
    s = PSeq(a, b)
    Assert(PMultiset(a, b).num(a) >= 1)


def c33(a: str, b: str) -> None:
    s = PSeq(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(PMultiset(a, b).num(a) == 1)
