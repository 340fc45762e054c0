from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


from dataclasses import dataclass, field
@dataclass
class P:
    x: int
    y: int = 4
@dataclass
class Q:
    a: int = 1
    b: bool = True
    c: str = 'q'
@dataclass(frozen=True)
class F:
    x: int
    y: int = 2
@dataclass(frozen=True)
class G:
    x: int
    l: List[int] = field(default_factory=list)
@dataclass
class R:
    l: List[int] = field(default_factory=list)
    n: int = 0


def c0(a: int, b: int) -> None:
    f = F(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert f.y == a


def c1(a: int, b: int) -> None:
    f = F(a)
    g = F(b, y=a)
    assert g.x == b


def c2(a: int, b: int) -> None:
    f = F(a)
    g = F(b, y=a)
    assert g.y == a


def c3(a: int, b: int) -> None:
    f = F(a)
    g = F(b, y=a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert g.y == 2


def c4(a: int, b: int) -> None:
    f = F(a)
    g = F(b, y=a)
    assert f.x == a


def c5(a: int, b: int) -> None:
    f = F(a)
    g = F(b, y=a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert f.x == b


def c6(a: int) -> None:
    r = R()
    assert len(r.l) == 0


def c7(a: int) -> None:
    r = R()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(r.l) == 1


def c8(a: int) -> None:
    r = R()
    assert r.n == 0


def c9(a: int) -> None:
    r = R()
    r.l.append(a)
    assert len(r.l) == 1


def c10(a: int) -> None:
    r = R()
    r.l.append(a)
    assert r.l[0] == a


def c11(a: int) -> None:
    r = R()
    r.l.append(a)
    s = R()
    assert len(s.l) == 0


def c12(a: int) -> None:
    r = R()
    r.l.append(a)
    s = R()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(s.l) == 1


def c13(a: int) -> None:
    r = R()
    r.l.append(a)
    s = R()
    assert s.l is not r.l


def c14(a: int) -> None:
    r = R()
    r.l.append(a)
    s = R()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert s.l is r.l


def c15(a: int) -> None:
    r = R()
    r.l.append(a)
    s = R()
    s.l.append(7)
    assert len(r.l) == 1


def c16(a: int) -> None:
    r = R()
    r.l.append(a)
    s = R()
    s.l.append(7)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(r.l) == 2


def c17(a: int) -> None:
    r = R()
    r.l.append(a)
    s = R()
    s.l.append(7)
    assert r.l[0] == a


def c18(a: int) -> None:
    r = R()
    r.l.append(a)
    s = R()
    s.l.append(7)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r.l[0] == 7


def c19(a: int) -> None:
    l = [a, 2]
    r = R(l, 3)
    assert r.l is l


def c20(a: int) -> None:
    l = [a, 2]
    r = R(l, 3)
    assert r.n == 3


def c21(a: int) -> None:
    l = [a, 2]
    r = R(l, 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r.n == 0


def c22(a: int) -> None:
    l = [a, 2]
    r = R(l, 3)
    l.append(5)
    assert len(r.l) == 3


def c23(a: int) -> None:
    l = [a, 2]
    r = R(l, 3)
    l.append(5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(r.l) == 2


def c24(a: int) -> None:
    l = [a, 2]
    r = R(l, 3)
    l.append(5)
    assert r.l[2] == 5


def c25(a: int) -> None:
    l = [a]
    g = G(a, l)
    assert g.l is l


def c26(a: int) -> None:
    l = [a]
    g = G(a, l)
    assert g.x == a


def c27(a: int) -> None:
    l = [a]
    g = G(a, l)
    assert len(g.l) == 1


def c28(a: int) -> None:
    l = [a]
    g = G(a, l)
    h = G(2)
    assert len(h.l) == 0


def c29(a: int) -> None:
    l = [a]
    g = G(a, l)
    h = G(2)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(h.l) == 1


def c30(a: int) -> None:
    l = [a]
    g = G(a, l)
    h = G(2)
    assert h.x == 2


def c31(a: int) -> None:
    l = [a]
    g = G(a, l)
    h = G(2)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert h.x == a


def c32(a: int) -> None:
    l = [a]
    g = G(a, l)
    h = G(2)
    h.l.append(8)
    assert len(l) == 1


def c33(a: int) -> None:
    l = [a]
    g = G(a, l)
    h = G(2)
    h.l.append(8)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(l) == 2


def c34(a: int) -> None:
    l = [a]
    g = G(a, l)
    h = G(2)
    h.l.append(8)
    assert h.l[0] == 8


def c35(a: int) -> None:
    l = [a]
    g = G(a, l)
    h = G(2)
    h.l.append(8)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert h.l[0] == a
