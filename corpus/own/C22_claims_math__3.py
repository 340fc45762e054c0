from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    Assert((m - PMultiset(b, b)).num(b) == 0)


def c1(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(len(m - PMultiset(b, b)) == 1)


def c2(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    Assert(len(m + m) == 6)


def c3(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    Assert((m - PMultiset(a, a, a)) == PMultiset(b))


def c4(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    Assert((m - PMultiset(a)) + PMultiset(a) == m)


def c5(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert((m - PMultiset(a, a, a)) + PMultiset(a, a, a) == m)


def c6(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    Assert(m.num(a + b + 1) >= 0)


def c7(a: int, b: int) -> None:
    Requires(a != b)
    m = PMultiset(a, b, a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(m.num(a + b + 1) == 0)


def c8(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert(len(s) == 3)


def c9(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert(s[0] == a)


def c10(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert(s[2] == 3)


def c11(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert(s[-1] == 3)


def c12(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert(s[-3] == a)


def c13(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(s[1] == a)


def c14(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert(s[0] < 256)


def c15(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    #:: ExpectedOutput(application.precondition:assertion.false)
    Assert(s[3] == s[3])


def c16(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    #:: ExpectedOutput(application.precondition:assertion.false)
    Assert(s[-4] == s[-4])


def c17(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert(s[-3] == s[-3])


def c18(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert(3 in s)


def c19(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert(b in s)


def c20(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(5 in s)


def c21(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert(s.take(2) == PByteSeq(a, b))


def c22(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(s.take(2) == PByteSeq(b, a))


def c23(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert(s.drop(1) == PByteSeq(b, 3))


def c24(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(s.drop(1) == PByteSeq(a, b))


def c25(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert(len(s.take(7)) == 3)


def c26(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert(len(s.drop(7)) == 0)


def c27(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert(s.take(1) + s.drop(1) == s)


def c28(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(s.take(1) + s.drop(2) == s)


def c29(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert((s + s)[4] == b)


def c30(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert((s + s)[4] == 3)


def c31(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert(s.update(1, 7) == PByteSeq(a, 7, 3))


def c32(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert(s.update(1, 7)[0] == a)


def c33(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(s.update(1, 7)[0] == 7)


def c34(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    #:: ExpectedOutput(application.precondition:assertion.false)
    Assert(s.update(3, 0) == s.update(3, 0))


def c35(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    #:: ExpectedOutput(application.precondition:assertion.false)
    Assert(s.update(-1, 0) == s.update(-1, 0))


def c36(a: int, b: int) -> None:
    Requires(0 <= a and a < 256 and 0 <= b and b < 256)
    s = PByteSeq(a, b, 3)
    Assert(s.update(2, 0) == s.update(2, 0))
