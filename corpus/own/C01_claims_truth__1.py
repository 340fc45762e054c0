from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class Plain:
    pass

class Falsy:
    @Pure
    def __bool__(self) -> bool:
        return False

class Sized:
    @Pure
    def __len__(self) -> int:
        return 0


def c0(o: object) -> None:
    r = 1 if o else 2
    Assert(Implies(r == 1, o is not None))


def c1() -> None:
    t = (1, 2)
    r = 1 if t else 2
    assert r == 1


def c2() -> None:
    t = (1, 2)
    r = 1 if t else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 2


def c3() -> None:
    t = (1, 2)
    r = 1 if t else 2
    p = Plain()
    r = 1 if p else 2
    assert r == 1


def c4() -> None:
    t = (1, 2)
    r = 1 if t else 2
    p = Plain()
    r = 1 if p else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 2


def c5() -> None:
    f = Falsy()
    r = 1 if f else 2
    assert r == 2


def c6() -> None:
    f = Falsy()
    r = 1 if f else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 1


def c7() -> None:
    f = Sized()
    r = 1 if f else 2
    assert r == 2


def c8() -> None:
    f = Sized()
    r = 1 if f else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 1


def c9(t: Tuple[int, ...]) -> None:
    r = 1 if t else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 1


def c10(t: Tuple[int, ...]) -> None:
    r = 1 if t else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 2


def c11(t: Tuple[int, ...]) -> None:
    r = 1 if t else 2
    Assert(Implies(len(t) == 0, r == 2))


def c12(t: Tuple[int, ...]) -> None:
    r = 1 if t else 2
    Assert(Implies(len(t) > 0, r == 1))


def c13(b: bytes) -> None:
    r = 1 if b else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 1


def c14(b: bytes) -> None:
    r = 1 if b else 2
    Assert(Implies(len(b) == 0, r == 2))


def c15(b: bytes) -> None:
    r = 1 if b else 2
    Assert(Implies(len(b) > 0, r == 1))


def c16(n: int) -> None:
    Requires(n >= 0)
    w = range(0, n)
    r = 1 if w else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 1


def c17(n: int) -> None:
    Requires(n >= 0)
    w = range(0, n)
    r = 1 if w else 2
    Assert(Implies(n == 0, r == 2))


def c18(n: int) -> None:
    Requires(n >= 0)
    w = range(0, n)
    r = 1 if w else 2
    Assert(Implies(n > 0, r == 1))


def c19(o: object) -> None:
    s = o == 'a'
    r = 1 if o else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(isinstance(o, str), r == 1))


def c20(o: object) -> None:
    s = o == 'a'
    r = 1 if o else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(isinstance(o, bool), r == 1))


def c21(p: bool) -> None:
    t = (1, 2) if p else (0, 0)
    r = 1 if t else 2
    assert r == 1


def c22(p: bool) -> None:
    t = (1, 2) if p else (0, 0)
    r = 1 if t else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 2


def c23(t: Tuple[int, ...]) -> None:
    r = 1 if t else 2
    assert (not t) == (len(t) == 0)


def c24(n: int) -> None:
    Requires(n >= 0)
    w = range(0, n)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert bool(w)


def c25(p: bool) -> None:
    f = None  # type: Optional[Sized]
    if p: f = Sized()
    r = 1 if f else 2
    assert r == 2


def c26(p: bool) -> None:
    f = None  # type: Optional[Sized]
    if p: f = Sized()
    r = 1 if f else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 1
