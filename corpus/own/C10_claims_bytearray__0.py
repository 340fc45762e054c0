from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    assert len(b) == 3


def c1(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    assert b[0] == a


def c2(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    assert b[1] == 2


def c3(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    assert b[-1] == 3


def c4(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b[-1] == 2


def c5(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b[0] == 2


def c6(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    assert len(b) == 4


def c7(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    assert b[3] == 4


def c8(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    assert b[0] == a


def c9(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    assert b[1] == 9


def c10(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b[1] == 2


def c11(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    assert len(b) == 4


def c12(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    c = b
    c.append(5)
    assert len(b) == 5


def c13(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    c = b
    c.append(5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(b) == 4


def c14(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    c = b
    c.append(5)
    assert a in b


def c15(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    c = b
    c.append(5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 77 in b


def c16(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    c = b
    c.append(5)
    d = bytearray(b)
    d[0] = 255
    assert b[0] == a


def c17(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    c = b
    c.append(5)
    d = bytearray(b)
    d[0] = 255
    assert d[0] == 255


def c18(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    c = b
    c.append(5)
    d = bytearray(b)
    d[0] = 255
    assert len(d) == 5


def c19(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    c = b
    c.append(5)
    d = bytearray(b)
    d[0] = 255
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b[0] == 255


def c20(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    c = b
    c.append(5)
    d = bytearray(b)
    d[0] = 255
    assert d is not b


def c21(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    c = b
    c.append(5)
    d = bytearray(b)
    d[0] = 255
    d.extend(b)
    assert len(d) == 10


def c22(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    c = b
    c.append(5)
    d = bytearray(b)
    d[0] = 255
    d.extend(b)
    assert d[5] == a


def c23(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    c = b
    c.append(5)
    d = bytearray(b)
    d[0] = 255
    d.extend(b)
    assert len(b) == 5


def c24(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    c = b
    c.append(5)
    d = bytearray(b)
    d[0] = 255
    d.extend(b)
    assert d[9] == 5


def c25(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    c = b
    c.append(5)
    d = bytearray(b)
    d[0] = 255
    d.extend(b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert d[9] == 4


def c26(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    c = b
    c.append(5)
    d = bytearray(b)
    d[0] = 255
    d.extend(b)
    b.reverse()
    assert b[0] == 5


def c27(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    c = b
    c.append(5)
    d = bytearray(b)
    d[0] = 255
    d.extend(b)
    b.reverse()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b[0] == a


def c28(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    c = b
    c.append(5)
    d = bytearray(b)
    d[0] = 255
    d.extend(b)
    b.reverse()
    assert b[4] == a


def c29(a: int) -> None:
    Requires(0 <= a and a < 256)
    b = bytearray([a, 2, 3])
    b.append(4)
    b[1] = 9
    c = b
    c.append(5)
    d = bytearray(b)
    d[0] = 255
    d.extend(b)
    b.reverse()
    assert len(b) == 5


def c30(a: int) -> None:
    b = bytearray()
    assert len(b) == 0


def c31(a: int) -> None:
    b = bytearray()
    #:: ExpectedOutput(call.precondition:assertion.false)
    b.append(a)
