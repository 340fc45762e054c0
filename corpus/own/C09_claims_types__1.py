from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class A:
    def __init__(self) -> None:
        pass

    @Pure
    def k(self) -> int:
        Ensures(Result() >= 1)
        return 1

    def m(self) -> int:
        Ensures(Result() >= 10)
        return 10

class B(A):
    def m(self) -> int:
        Ensures(Result() >= 20)
        return 20

class C(B):
    def m(self) -> int:
        Ensures(Result() >= 30)
        return 30

class D(A):
    @Pure
    def __eq__(self, other: object) -> bool:
        return True

class E:
    pass


def c0(o: object) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(o, int)


def c1(o: object) -> None:
    Assert(Implies(isinstance(o, bool), isinstance(o, int)))


def c2(o: object) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(isinstance(o, int), isinstance(o, bool)))


def c3(o: object) -> None:
    Assert(Implies(isinstance(o, int), not isinstance(o, str)))


def c4(o: object) -> None:
    Assert(Implies(o is None, not isinstance(o, int)))


def c5(o: object) -> None:
    Assert(Implies(isinstance(o, str), o is not None))


def c6(o: object) -> None:
    Assert(Implies(isinstance(o, str), not isinstance(o, bytes)))


def c7(o: object) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(not isinstance(o, str), isinstance(o, int)))


def c8(o: object) -> None:
    r = 0
    if isinstance(o, int): r = o + 1
    Assert(Implies(isinstance(o, bool), r <= 2))


def c9(o: object) -> None:
    r = 0
    if isinstance(o, int): r = o + 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 0


def c10(x: Union[int, str]) -> None:
    assert isinstance(x, int) or isinstance(x, str)


def c11(x: Union[int, str]) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(x, int)


def c12(x: Union[int, str]) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(x, str)


def c13(x: Union[int, str]) -> None:
    Assert(Implies(not isinstance(x, int), isinstance(x, str)))


def c14(x: Union[int, str]) -> None:
    Assert(Implies(isinstance(x, str), not isinstance(x, int)))


def c15(x: Union[int, str]) -> None:
    assert x is not None


def c16(x: Union[int, str]) -> None:
    r = x + 1 if isinstance(x, int) else len(x)
    Assert(Implies(isinstance(x, str), r >= 0))


def c17(x: Optional[int]) -> None:
    assert x is None or isinstance(x, int)


def c18(x: Optional[int]) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(x, int)


def c19(x: Optional[int]) -> None:
    Assert(Implies(x is not None, isinstance(x, int)))


def c20(x: Optional[int]) -> None:
    r = 0
    if x is not None: r = x + 1
    Assert(Implies(x is None, r == 0))


def c21(x: Optional[int]) -> None:
    r = 0
    if x is not None: r = x + 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 0


def c22(x: Optional[int]) -> None:
    r = 0
    if x is not None: r = x + 1
    Assert(Implies(r == 5, x == 4))


def c23() -> None:
    a = B()  # type: A
    r = a.m()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r >= 30


def c24() -> None:
    a = B()  # type: A
    r = a.m()
    assert r >= 10


def c25() -> None:
    a = B()  # type: A
    r = a.m()
    k = a.k()
    assert k >= 1


def c26() -> None:
    a = B()  # type: A
    r = a.m()
    k = a.k()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert k == 7
