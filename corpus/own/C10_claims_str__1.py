from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(b: bytes, c: bytes) -> None:
    assert b * 1 == b


def c1(b: bytes, c: bytes) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b * 3 == b + b


def c2(b: bytes, c: bytes) -> None:
    assert b'ab' == b'a' + b'b'


def c3(b: bytes, c: bytes) -> None:
    assert b'ab'[0] == 97


def c4(b: bytes, c: bytes) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b'ab'[1] == 97


def c5(b: bytes, c: bytes) -> None:
    assert b'ab'[-1] == 98


def c6(b: bytes, c: bytes) -> None:
    assert b'ab'[-2] == 97


def c7(b: bytes, c: bytes) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b'ab'[-1] == 97


def c8(b: bytes, c: bytes) -> None:
    assert len(b'abc') == 3


def c9(b: bytes, c: bytes) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    assert b'abc'[-2:] == b'c'


def c10(b: bytes, c: bytes) -> None:
    assert b'abc'[2:1] == b''


def c11(b: bytes, c: bytes) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    assert b'abc'[1:1] == b'b'


def c12(b: bytes, c: bytes) -> None:
    Assert(Implies(len(b) > 0, b[0] == b[-len(b)]))


def c13(b: bytes, c: bytes) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = b[0]


def c14(b: bytes, c: bytes) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = b[-1]


def c15(b: bytes) -> None:
    Requires(len(b) > 1)
    x = b[0]


def c16(b: bytes) -> None:
    Requires(len(b) > 1)
    x = b[1]


def c17(b: bytes) -> None:
    Requires(len(b) > 1)
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = b[2]


def c18(b: bytes) -> None:
    Requires(len(b) > 1)
    x = b[-1]


def c19(b: bytes) -> None:
    Requires(len(b) > 1)
    x = b[-2]


def c20(b: bytes) -> None:
    Requires(len(b) > 1)
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = b[-3]


def c21(s: str) -> None:
    x = s.split()
    assert len(x) >= 0


def c22(s: str) -> None:
    x = s.split()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(x) > 0


def c23(s: str) -> None:
    x = s.split()
    #:: ExpectedOutput(application.precondition:assertion.false)
    y = x[0]
