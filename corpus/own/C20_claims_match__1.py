from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(x: Optional[int]) -> None:
    r = 0
    match x:
        case None:
            r = 1
        case 0:
            r = 2
        case int() as z:
            r = z
    Assert(Implies(x is not None and x != 0, r == x))


def c1(x: Optional[int]) -> None:
    r = 0
    match x:
        case None:
            r = 1
        case 0:
            r = 2
        case int() as z:
            r = z
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x is not None and x != 0, r == 2))


def c2(x: object) -> None:
    r = 0
    match x:
        case bool():
            r = 1
        case int():
            r = 2
        case str():
            r = 3
        case None:
            r = 4
        case _:
            r = 5
    Assert(Implies(isinstance(x, bool), r == 1))


def c3(x: object) -> None:
    r = 0
    match x:
        case bool():
            r = 1
        case int():
            r = 2
        case str():
            r = 3
        case None:
            r = 4
        case _:
            r = 5
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(isinstance(x, bool), r == 2))


def c4(x: object) -> None:
    r = 0
    match x:
        case bool():
            r = 1
        case int():
            r = 2
        case str():
            r = 3
        case None:
            r = 4
        case _:
            r = 5
    Assert(Implies(isinstance(x, int) and not isinstance(x, bool), r == 2))


def c5(x: object) -> None:
    r = 0
    match x:
        case bool():
            r = 1
        case int():
            r = 2
        case str():
            r = 3
        case None:
            r = 4
        case _:
            r = 5
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(isinstance(x, int), r == 2))


def c6(x: object) -> None:
    r = 0
    match x:
        case bool():
            r = 1
        case int():
            r = 2
        case str():
            r = 3
        case None:
            r = 4
        case _:
            r = 5
    Assert(Implies(isinstance(x, int), r == 1 or r == 2))


def c7(x: object) -> None:
    r = 0
    match x:
        case bool():
            r = 1
        case int():
            r = 2
        case str():
            r = 3
        case None:
            r = 4
        case _:
            r = 5
    Assert(Implies(isinstance(x, str), r == 3))


def c8(x: object) -> None:
    r = 0
    match x:
        case bool():
            r = 1
        case int():
            r = 2
        case str():
            r = 3
        case None:
            r = 4
        case _:
            r = 5
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(isinstance(x, str), r == 5))


def c9(x: object) -> None:
    r = 0
    match x:
        case bool():
            r = 1
        case int():
            r = 2
        case str():
            r = 3
        case None:
            r = 4
        case _:
            r = 5
    Assert(Implies(x is None, r == 4))


def c10(x: object) -> None:
    r = 0
    match x:
        case bool():
            r = 1
        case int():
            r = 2
        case str():
            r = 3
        case None:
            r = 4
        case _:
            r = 5
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x is None, r == 5))


def c11(x: object) -> None:
    r = 0
    match x:
        case bool():
            r = 1
        case int():
            r = 2
        case str():
            r = 3
        case None:
            r = 4
        case _:
            r = 5
    Assert(Implies(not isinstance(x, int) and not isinstance(x, str) and x is not None, r == 5))


def c12(x: object) -> None:
    r = 0
    match x:
        case bool():
            r = 1
        case int():
            r = 2
        case str():
            r = 3
        case None:
            r = 4
        case _:
            r = 5
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(not isinstance(x, str) and x is not None, r == 5))


def c13(x: object) -> None:
    r = 0
    match x:
        case int():
            r = 1
        case bool():
            r = 2
    assert r != 2


def c14(x: object) -> None:
    r = 0
    match x:
        case int():
            r = 1
        case bool():
            r = 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 2


def c15(x: object) -> None:
    r = 0
    match x:
        case int():
            r = 1
        case bool():
            r = 2
    Assert(Implies(isinstance(x, bool), r == 1))


def c16(x: object) -> None:
    r = 0
    match x:
        case int():
            r = 1
        case bool():
            r = 2
    Assert(Implies(not isinstance(x, int), r == 0))


def c17(x: int, y: int) -> None:
    r = 0
    match x + y:
        case 4 if x > y:
            r = 1
        case 4:
            r = 2
        case s if s > 4 and x == 0:
            r = 3
        case _:
            r = x + y
    Assert(Implies(x == 3 and y == 1, r == 1))


def c18(x: int, y: int) -> None:
    r = 0
    match x + y:
        case 4 if x > y:
            r = 1
        case 4:
            r = 2
        case s if s > 4 and x == 0:
            r = 3
        case _:
            r = x + y
    Assert(Implies(x == 2 and y == 2, r == 2))


def c19(x: int, y: int) -> None:
    r = 0
    match x + y:
        case 4 if x > y:
            r = 1
        case 4:
            r = 2
        case s if s > 4 and x == 0:
            r = 3
        case _:
            r = x + y
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x == 2 and y == 2, r == 1))


def c20(x: int, y: int) -> None:
    r = 0
    match x + y:
        case 4 if x > y:
            r = 1
        case 4:
            r = 2
        case s if s > 4 and x == 0:
            r = 3
        case _:
            r = x + y
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x == 3 and y == 1, r == 2))


def c21(x: int, y: int) -> None:
    r = 0
    match x + y:
        case 4 if x > y:
            r = 1
        case 4:
            r = 2
        case s if s > 4 and x == 0:
            r = 3
        case _:
            r = x + y
    Assert(Implies(x == 0 and y == 7, r == 3))


def c22(x: int, y: int) -> None:
    r = 0
    match x + y:
        case 4 if x > y:
            r = 1
        case 4:
            r = 2
        case s if s > 4 and x == 0:
            r = 3
        case _:
            r = x + y
    Assert(Implies(x == 1 and y == 7, r == 8))


def c23(x: int, y: int) -> None:
    r = 0
    match x + y:
        case 4 if x > y:
            r = 1
        case 4:
            r = 2
        case s if s > 4 and x == 0:
            r = 3
        case _:
            r = x + y
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x == 1 and y == 7, r == 3))


def c24(x: int, y: int) -> None:
    r = 0
    match x + y:
        case 4 if x > y:
            r = 1
        case 4:
            r = 2
        case s if s > 4 and x == 0:
            r = 3
        case _:
            r = x + y
    Assert(Implies(x + y == 4, r == 1 or r == 2))


def c25(x: int, y: int) -> None:
    r = 0
    match x + y:
        case 4 if x > y:
            r = 1
        case 4:
            r = 2
        case s if s > 4 and x == 0:
            r = 3
        case _:
            r = x + y
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x + y == 4, r == 2))


def c26(x: int) -> None:
    r = 0
    while r < 10:
        Invariant(r >= 0 and r <= 10)
        Invariant(Implies(x == 2, r == 0))
        match x:
            case 1:
                r += 1
            case 2:
                break
            case _:
                r = 10
                continue
    Assert(Implies(x == 2, r == 0))


def c27(x: int) -> None:
    r = 0
    while r < 10:
        Invariant(r >= 0 and r <= 10)
        Invariant(Implies(x == 2, r == 0))
        match x:
            case 1:
                r += 1
            case 2:
                break
            case _:
                r = 10
                continue
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x == 2, r == 10))


def c28(x: int) -> None:
    r = 0
    while r < 10:
        Invariant(r >= 0 and r <= 10)
        Invariant(Implies(x == 2, r == 0))
        match x:
            case 1:
                r += 1
            case 2:
                break
            case _:
                r = 10
                continue
    Assert(Implies(x != 2, r == 10))


def c29(x: int) -> None:
    r = 0
    while r < 10:
        Invariant(r >= 0 and r <= 10)
        Invariant(Implies(x == 2, r == 0))
        match x:
            case 1:
                r += 1
            case 2:
                break
            case _:
                r = 10
                continue
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 10
