from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


from dataclasses import dataclass, field
@dataclass
class P:
    x: int
    y: int = 4
@dataclass
class Q:
    a: int = 1
    b: bool = True
    c: str = 'q'
@dataclass(frozen=True)
class F:
    x: int
    y: int = 2
@dataclass(frozen=True)
class G:
    x: int
    l: List[int] = field(default_factory=list)
@dataclass
class R:
    l: List[int] = field(default_factory=list)
    n: int = 0


def c0(a: int, b: int) -> None:
    p = P(a)
    assert p.x == a


def c1(a: int, b: int) -> None:
    p = P(a)
    assert p.y == 4


def c2(a: int, b: int) -> None:
    p = P(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert p.y == a


def c3(a: int, b: int) -> None:
    p = P(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert p.x == 4


def c4(a: int, b: int) -> None:
    p = P(a)
    p.x = b
    assert p.x == b


def c5(a: int, b: int) -> None:
    p = P(a)
    p.x = b
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert p.x == a


def c6(a: int, b: int) -> None:
    p = P(a)
    p.x = b
    assert p.y == 4


def c7(a: int, b: int) -> None:
    p = P(a)
    p.x = b
    p.y += 1
    assert p.y == 5


def c8(a: int, b: int) -> None:
    p = P(a)
    p.x = b
    p.y += 1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert p.y == 4


def c9(a: int, b: int) -> None:
    p = P(a)
    p.x = b
    p.y += 1
    assert p.x == b


def c10(a: int, b: int) -> None:
    p = P(a)
    p.x = b
    p.y += 1
    q = p
    q.x = 9
    assert p.x == 9


def c11(a: int, b: int) -> None:
    p = P(a)
    p.x = b
    p.y += 1
    q = p
    q.x = 9
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert p.x == b


def c12(a: int, b: int) -> None:
    p = P(a, b)
    assert p.x == a


def c13(a: int, b: int) -> None:
    p = P(a, b)
    assert p.y == b


def c14(a: int, b: int) -> None:
    p = P(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert p.x == b


def c15(a: int, b: int) -> None:
    p = P(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert p.y == 4


def c16(a: int, b: int) -> None:
    p = P(a, b)
    assert p is not P(a, b)


def c17(a: int, b: int) -> None:
    p = P(a, b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert p is P(a, b)


def c18(a: int, b: int) -> None:
    p = P(y=a, x=b)
    assert p.x == b


def c19(a: int, b: int) -> None:
    p = P(y=a, x=b)
    assert p.y == a


def c20(a: int, b: int) -> None:
    p = P(y=a, x=b)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert p.x == a


def c21(a: int, b: int) -> None:
    p = P(y=a, x=b)
    p2 = P(b, y=a)
    assert p2.x == p.x and p2.y == p.y


def c22(a: int, b: int) -> None:
    p = P(y=a, x=b)
    p2 = P(b, y=a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert p2.x == p.y


def c23(a: int, b: int) -> None:
    p = P(y=a, x=b)
    p2 = P(b, y=a)
    p2.x = 3
    assert p.x == b


def c24(a: int, b: int) -> None:
    p = P(y=a, x=b)
    p2 = P(b, y=a)
    p2.x = 3
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert p.x == 3


def c25(a: int) -> None:
    q = Q()
    assert q.a == 1 and q.b and q.c == 'q'


def c26(a: int) -> None:
    q = Q()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert q.a == 0


def c27(a: int) -> None:
    q = Q()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert not q.b


def c28(a: int) -> None:
    q = Q()
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert q.c == 'r'


def c29(a: int) -> None:
    q = Q()
    q = Q(b=False)
    assert q.a == 1 and not q.b and q.c == 'q'


def c30(a: int) -> None:
    q = Q()
    q = Q(b=False)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert q.b


def c31(a: int) -> None:
    q = Q()
    q = Q(b=False)
    q = Q(a, c='z')
    assert q.a == a


def c32(a: int) -> None:
    q = Q()
    q = Q(b=False)
    q = Q(a, c='z')
    assert q.b


def c33(a: int) -> None:
    q = Q()
    q = Q(b=False)
    q = Q(a, c='z')
    assert q.c == 'z'


def c34(a: int) -> None:
    q = Q()
    q = Q(b=False)
    q = Q(a, c='z')
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert q.c == 'q'


def c35(a: int) -> None:
    q = Q()
    q = Q(b=False)
    q = Q(a, c='z')
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert q.a == 1


def c36(a: int, b: int) -> None:
    f = F(a)
    assert f.x == a and f.y == 2
