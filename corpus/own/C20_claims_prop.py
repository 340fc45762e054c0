from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class T:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)  # type: ignore
        self.v = v
    @property
    def double(self) -> int:
        Requires(Acc(self.v))
        return self.v * 2
    @double.setter
    def double(self, n: int) -> None:
        Requires(Acc(self.v))
        Ensures(Acc(self.v))
        Ensures(self.v == n // 2)
        self.v = n // 2
    @property
    def positive(self) -> bool:
        Requires(Acc(self.v))
        Requires(self.v != 0)
        return self.v > 0
class U(T):
    def __init__(self, v: int, w: int) -> None:
        Ensures(Acc(self.v) and self.v == v)  # type: ignore
        Ensures(Acc(self.w) and self.w == w)  # type: ignore
        super().__init__(v)
        self.w = w
    @property
    def both(self) -> int:
        Requires(Acc(self.v, 1/2) and Acc(self.w, 1/2))
        return self.v + self.w


def c0(a: int) -> None:
    t = T(a)
    assert t.double == 2 * a


def c1(a: int) -> None:
    t = T(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t.double == a


def c2(a: int) -> None:
    t = T(a)
    assert t.double == a + a and t.v == a


def c3(a: int) -> None:
    t = T(a)
    t.double = 7
    assert t.v == 3


def c4(a: int) -> None:
    t = T(a)
    t.double = 7
    assert t.double == 6


def c5(a: int) -> None:
    t = T(a)
    t.double = 7
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t.double == 7


def c6(a: int) -> None:
    t = T(a)
    t.double = 7
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t.v == a


def c7(a: int) -> None:
    t = T(a)
    t.double = 7
    t.double += 4
    assert t.v == 5


def c8(a: int) -> None:
    t = T(a)
    t.double = 7
    t.double += 4
    assert t.double == 10


def c9(a: int) -> None:
    t = T(a)
    t.double = 7
    t.double += 4
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t.double == 12


def c10(a: int) -> None:
    t = T(a)
    t.double = 7
    t.double += 4
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t.v == 3


def c11(a: int) -> None:
    t = T(a)
    t.double = 7
    t.double += 4
    t.double = -3
    assert t.v == -2


def c12(a: int) -> None:
    t = T(a)
    t.double = 7
    t.double += 4
    t.double = -3
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t.v == -1


def c13(a: int) -> None:
    t = T(a)
    t.double = 7
    t.double += 4
    t.double = -3
    assert t.double == -4


def c14(a: int, b: int) -> None:
    u = U(a, b)
    assert u.both == a + b


def c15(a: int, b: int) -> None:
    u = U(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert u.both == a


def c16(a: int, b: int) -> None:
    u = U(a, b)
    assert u.double == 2 * a


def c17(a: int, b: int) -> None:
    u = U(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert u.double == a + b


def c18(a: int, b: int) -> None:
    u = U(a, b)
    u.v = 2
    assert u.both == 2 + b


def c19(a: int, b: int) -> None:
    u = U(a, b)
    u.v = 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert u.both == 4 + b


def c20(a: int, b: int) -> None:
    u = U(a, b)
    u.v = 2
    assert u.w == b


def c21(a: int, b: int) -> None:
    u = U(a, b)
    u.v = 2
    u.w = a
    assert u.both == a + 2


def c22(a: int, b: int) -> None:
    u = U(a, b)
    u.v = 2
    u.w = a
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert u.both == b + 2


def c23(a: int, b: int) -> None:
    u = U(a, b)
    u.v = 2
    u.w = a
    assert u.double == 4
