from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int) -> None:
    Requires(-256 <= a and a < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (1 << 70) == 0


def c1(a: int) -> None:
    Requires(-256 <= a and a < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a << 66) == 0


def c2(a: int) -> None:
    Requires(-256 <= a and a < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (-1 << 66) == 0


def c3(a: int) -> None:
    Requires(-256 <= a and a < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (-1 >> 100) == 0


def c4(a: int) -> None:
    Requires(-256 <= a and a < 256)
    assert (-1 >> 100) == -1


def c5(p: bool, a: int) -> None:
    Requires(0 <= a and a < 256)
    assert (p & a) == (a & 1 if p else 0)


def c6(p: bool, a: int) -> None:
    Requires(0 <= a and a < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (p & a) == (a if p else 0)


def c7(p: bool, a: int) -> None:
    Requires(0 <= a and a < 256)
    assert (p | a) == (a | 1 if p else a)


def c8(p: bool, a: int) -> None:
    Requires(0 <= a and a < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (p | a) == a


def c9(p: bool, a: int) -> None:
    Requires(0 <= a and a < 256)
    assert (p ^ a) == (a ^ 1 if p else a)


def c10(p: bool, a: int) -> None:
    Requires(0 <= a and a < 256)
    assert (a & p) == (p & a)


def c11(p: bool, a: int) -> None:
    Requires(0 <= a and a < 256)
    assert (a & p) >= 0 and (a & p) <= 1


def c12(p: bool, a: int) -> None:
    Requires(0 <= a and a < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a & p) == 1


def c13(p: bool, a: int) -> None:
    Requires(0 <= a and a < 256)
    assert (p << 3) == (8 if p else 0)


def c14(p: bool, a: int) -> None:
    Requires(0 <= a and a < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (p << 3) == 8


def c15(p: bool, a: int) -> None:
    Requires(0 <= a and a < 256)
    assert (p >> 1) == 0


def c16(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = a
    b &= 15
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b == a


def c17(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = a
    b &= 15
    b |= 16
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b == a % 16


def c18(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = a
    b &= 15
    b |= 16
    b ^= 16
    b <<= 2
    b >>= 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b == a % 16 * 4


def c19(a: int) -> None:
    assert (a >> 2) == a // 4


def c20(a: int) -> None:
    assert (a << 2) == a * 4


def c21(a: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a << 2) == a * 2


def c22(a: int) -> None:
    assert (a >> 2) * 4 <= a


def c23(a: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a >> 2) * 4 == a


def c24(a: int) -> None:
    Requires(0 <= a and a < 256)
    assert a.bit_length() <= 8


def c25(a: int) -> None:
    Requires(0 <= a and a < 256)
    Assert(Implies(a == 0, a.bit_length() == 0))


def c26(a: int) -> None:
    Requires(0 <= a and a < 256)
    Assert(Implies(a == 1, a.bit_length() == 1))


def c27(a: int) -> None:
    Requires(0 <= a and a < 256)
    Assert(Implies(a == 255, a.bit_length() == 8))


def c28(a: int) -> None:
    Requires(0 <= a and a < 256)
    Assert(Implies(a >= 128, a.bit_length() == 8))


def c29(a: int) -> None:
    Requires(0 <= a and a < 256)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(a >= 64, a.bit_length() == 8))


def c30(a: int) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    b = a.bit_length()
