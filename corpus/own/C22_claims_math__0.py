from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(len(s) == 3)


def c1(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(len(s) == 2)


def c2(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(s[0] == a)


def c3(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(s[2] == 3)


def c4(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(s[-1] == 3)


def c5(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(s[-3] == a)


def c6(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(s[-2] == a)


def c7(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(s[1] == 3)


def c8(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(application.precondition:assertion.false)
    Assert(s[3] == s[3])


def c9(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(application.precondition:assertion.false)
    Assert(s[-4] == s[-4])


def c10(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(s[-3] == s[-3])


def c11(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(a in s)


def c12(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(3 in s)


def c13(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(4 in s)


def c14(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(s.take(2) == PSeq(a, b))


def c15(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(s.take(2) == PSeq(a, 3))


def c16(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(s.take(0) == PSeq(1).take(0))


def c17(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(len(s.take(2)) == 2)


def c18(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(len(s.take(5)) == 3)


def c19(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(len(s.take(5)) == 5)


def c20(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(len(s.take(-1)) == 0)


def c21(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(s.take(3) == s)


def c22(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(s.take(5) == s)


def c23(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(s.drop(1) == PSeq(b, 3))


def c24(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(s.drop(1) == PSeq(a, b))


def c25(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(s.drop(0) == s)


def c26(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(s.drop(-2) == s)


def c27(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(len(s.drop(5)) == 0)


def c28(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(len(s.drop(2)) == 1)


def c29(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(s.drop(2)[0] == 3)


def c30(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(s.drop(1)[1] == b)


def c31(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(application.precondition:assertion.false)
    Assert(s.drop(2)[1] == s.drop(2)[1])


def c32(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(s.take(1) + s.drop(1) == s)


def c33(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(s.take(2) + s.drop(1) == s)


def c34(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(s.drop(1) + s.take(1) == s)


def c35(a: int, b: int) -> None:
    s = PSeq(a, b, 3)
    Assert(len(s + s) == 6)
