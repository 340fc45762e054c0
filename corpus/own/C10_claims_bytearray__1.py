from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int) -> None:
    b = bytearray()
    #:: ExpectedOutput(call.precondition:assertion.false)
    b.append(256)


def c1(a: int) -> None:
    b = bytearray()
    b.append(255)


def c2(a: int) -> None:
    b = bytearray()
    #:: ExpectedOutput(call.precondition:assertion.false)
    b.append(-1)


def c3(a: int) -> None:
    b = bytearray()
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = b[0]


def c4(a: int) -> None:
    b = bytearray()
    #:: ExpectedOutput(call.precondition:assertion.false)
    b[0] = 1


def c5(n: int) -> None:
    #:: ExpectedOutput(call.precondition:assertion.false)
    b = bytearray(n)


def c6(n: int) -> None:
    #:: ExpectedOutput(call.precondition:assertion.false)
    b = bytearray([n])


def c7(n: int) -> None:
    #:: ExpectedOutput(call.precondition:assertion.false)
    b = bytearray([255, 256])


def c8(n: int) -> None:
    b = bytearray([255, 0])


def c9(n: int) -> None:
    Requires(n >= 0 and n < 20)
    b = bytearray(n)
    assert len(b) == n


def c10(n: int) -> None:
    Requires(n >= 0 and n < 20)
    b = bytearray(n)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(b) == n + 1


def c11(n: int) -> None:
    Requires(n >= 0 and n < 20)
    b = bytearray(n)
    Assert(Implies(n > 3, b[3] == 0))


def c12(n: int) -> None:
    Requires(n >= 0 and n < 20)
    b = bytearray(n)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(n > 3, b[3] == 1))


def c13(n: int) -> None:
    Requires(n >= 0 and n < 20)
    b = bytearray(n)
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = b[n]


def c14(n: int) -> None:
    Requires(n >= 0 and n < 20)
    b = bytearray(n)
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = b[0]


def c15(n: int) -> None:
    Requires(n >= 0 and n < 20)
    b = bytearray(n)
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = b[-n]


def c16(n: int) -> None:
    b = bytearray([1, 2, 3])
    c = b[1:]
    assert len(c) == 2


def c17(n: int) -> None:
    b = bytearray([1, 2, 3])
    c = b[1:]
    assert c[0] == 2


def c18(n: int) -> None:
    b = bytearray([1, 2, 3])
    c = b[1:]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c[0] == 1


def c19(n: int) -> None:
    b = bytearray([1, 2, 3])
    c = b[1:]
    c[0] = 7
    assert b[1] == 2


def c20(n: int) -> None:
    b = bytearray([1, 2, 3])
    c = b[1:]
    c[0] = 7
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b[1] == 7


def c21(n: int) -> None:
    b = bytearray([1, 2, 3])
    c = b[1:]
    c[0] = 7
    d = b[:-1]
    assert len(d) == 2


def c22(n: int) -> None:
    b = bytearray([1, 2, 3])
    c = b[1:]
    c[0] = 7
    d = b[:-1]
    assert d[1] == 2


def c23(n: int) -> None:
    b = bytearray([1, 2, 3])
    c = b[1:]
    c[0] = 7
    d = b[:-1]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert d[1] == 3


def c24(n: int) -> None:
    b = bytearray([1, 2, 3])
    c = b[1:]
    c[0] = 7
    d = b[:-1]
    #:: ExpectedOutput(call.precondition:assertion.false)
    b[0] = 256


def c25(n: int) -> None:
    b = bytearray([1, 2, 3])
    c = b[1:]
    c[0] = 7
    d = b[:-1]
    #:: ExpectedOutput(call.precondition:assertion.false)
    b[0] = -1


def c26(n: int) -> None:
    b = bytearray([1, 2, 3])
    c = b[1:]
    c[0] = 7
    d = b[:-1]
    #:: ExpectedOutput(call.precondition:assertion.false)
    b[3] = 1


def c27(n: int) -> None:
    b = bytearray([1, 2, 3])
    c = b[1:]
    c[0] = 7
    d = b[:-1]
    #:: ExpectedOutput(call.precondition:assertion.false)
    b[0] = n


def c28(n: int) -> None:
    b = bytearray([1, 2, 3])
    c = b[1:]
    c[0] = 7
    d = b[:-1]
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = b[-4]


def c29(n: int) -> None:
    b = bytearray([1, 2, 3])
    c = b[1:]
    c[0] = 7
    d = b[:-1]
    x = b[-3]
