from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(x: int) -> None:
    r = 0
    match x:
        case 0:
            r = 10
        case 1 | 2:
            r = 20
        case -1:
            r = 30
        case y if y > 5:
            r = y
        case _:
            r = 40
    Assert(Implies(x == 0, r == 10))


def c1(x: int) -> None:
    r = 0
    match x:
        case 0:
            r = 10
        case 1 | 2:
            r = 20
        case -1:
            r = 30
        case y if y > 5:
            r = y
        case _:
            r = 40
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x == 0, r == 20))


def c2(x: int) -> None:
    r = 0
    match x:
        case 0:
            r = 10
        case 1 | 2:
            r = 20
        case -1:
            r = 30
        case y if y > 5:
            r = y
        case _:
            r = 40
    Assert(Implies(x == 1, r == 20))


def c3(x: int) -> None:
    r = 0
    match x:
        case 0:
            r = 10
        case 1 | 2:
            r = 20
        case -1:
            r = 30
        case y if y > 5:
            r = y
        case _:
            r = 40
    Assert(Implies(x == 2, r == 20))


def c4(x: int) -> None:
    r = 0
    match x:
        case 0:
            r = 10
        case 1 | 2:
            r = 20
        case -1:
            r = 30
        case y if y > 5:
            r = y
        case _:
            r = 40
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x == 2, r == 40))


def c5(x: int) -> None:
    r = 0
    match x:
        case 0:
            r = 10
        case 1 | 2:
            r = 20
        case -1:
            r = 30
        case y if y > 5:
            r = y
        case _:
            r = 40
    Assert(Implies(x == -1, r == 30))


def c6(x: int) -> None:
    r = 0
    match x:
        case 0:
            r = 10
        case 1 | 2:
            r = 20
        case -1:
            r = 30
        case y if y > 5:
            r = y
        case _:
            r = 40
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x == -1, r == 40))


def c7(x: int) -> None:
    r = 0
    match x:
        case 0:
            r = 10
        case 1 | 2:
            r = 20
        case -1:
            r = 30
        case y if y > 5:
            r = y
        case _:
            r = 40
    Assert(Implies(x > 5, r == x))


def c8(x: int) -> None:
    r = 0
    match x:
        case 0:
            r = 10
        case 1 | 2:
            r = 20
        case -1:
            r = 30
        case y if y > 5:
            r = y
        case _:
            r = 40
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x > 5, r == 40))


def c9(x: int) -> None:
    r = 0
    match x:
        case 0:
            r = 10
        case 1 | 2:
            r = 20
        case -1:
            r = 30
        case y if y > 5:
            r = y
        case _:
            r = 40
    Assert(Implies(x > 2 and x <= 5, r == 40))


def c10(x: int) -> None:
    r = 0
    match x:
        case 0:
            r = 10
        case 1 | 2:
            r = 20
        case -1:
            r = 30
        case y if y > 5:
            r = y
        case _:
            r = 40
    Assert(Implies(x < -1, r == 40))


def c11(x: int) -> None:
    r = 0
    match x:
        case 0:
            r = 10
        case 1 | 2:
            r = 20
        case -1:
            r = 30
        case y if y > 5:
            r = y
        case _:
            r = 40
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x > 2 and x < 7, r == 40))


def c12(x: int) -> None:
    r = 0
    match x:
        case 0:
            r = 10
        case 1 | 2:
            r = 20
        case -1:
            r = 30
        case y if y > 5:
            r = y
        case _:
            r = 40
    assert r == 10 or r == 20 or r == 30 or r > 5


def c13(x: int) -> None:
    r = 0
    match x:
        case 0:
            r = 10
        case 1 | 2:
            r = 20
        case -1:
            r = 30
        case y if y > 5:
            r = y
        case _:
            r = 40
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 10 or r == 20 or r == 30 or r == 40


def c14(x: int) -> None:
    r = 5
    match x:
        case 3:
            r = 1
        case 4:
            pass
    Assert(Implies(x == 3, r == 1))


def c15(x: int) -> None:
    r = 5
    match x:
        case 3:
            r = 1
        case 4:
            pass
    Assert(Implies(x != 3, r == 5))


def c16(x: int) -> None:
    r = 5
    match x:
        case 3:
            r = 1
        case 4:
            pass
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x == 4, r == 1))


def c17(x: int) -> None:
    r = 5
    match x:
        case 3:
            r = 1
        case 4:
            pass
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x == 7, r == 1))


def c18(x: int) -> None:
    r = 5
    match x:
        case 3:
            r = 1
        case 4:
            pass
    assert r == 1 or r == 5


def c19(x: int) -> None:
    r = 5
    match x:
        case 3:
            r = 1
        case 4:
            pass
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 5


def c20(x: bool, y: int) -> None:
    r = 0
    match x:
        case True:
            match y:
                case 1:
                    r = 1
                case _:
                    r = 2
        case False:
            r = y
    Assert(Implies(x and y == 1, r == 1))


def c21(x: bool, y: int) -> None:
    r = 0
    match x:
        case True:
            match y:
                case 1:
                    r = 1
                case _:
                    r = 2
        case False:
            r = y
    Assert(Implies(x and y == 2, r == 2))


def c22(x: bool, y: int) -> None:
    r = 0
    match x:
        case True:
            match y:
                case 1:
                    r = 1
                case _:
                    r = 2
        case False:
            r = y
    Assert(Implies(not x, r == y))


def c23(x: bool, y: int) -> None:
    r = 0
    match x:
        case True:
            match y:
                case 1:
                    r = 1
                case _:
                    r = 2
        case False:
            r = y
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(not x, r == 2))


def c24(x: bool, y: int) -> None:
    r = 0
    match x:
        case True:
            match y:
                case 1:
                    r = 1
                case _:
                    r = 2
        case False:
            r = y
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x, r == 2))


def c25(x: bool, y: int) -> None:
    r = 0
    match x:
        case True:
            match y:
                case 1:
                    r = 1
                case _:
                    r = 2
        case False:
            r = y
    Assert(Implies(x, r > 0))


def c26(x: Optional[int]) -> None:
    r = 0
    match x:
        case None:
            r = 1
        case 0:
            r = 2
        case int() as z:
            r = z
    Assert(Implies(x is None, r == 1))


def c27(x: Optional[int]) -> None:
    r = 0
    match x:
        case None:
            r = 1
        case 0:
            r = 2
        case int() as z:
            r = z
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x is None, r == 0))


def c28(x: Optional[int]) -> None:
    r = 0
    match x:
        case None:
            r = 1
        case 0:
            r = 2
        case int() as z:
            r = z
    Assert(Implies(x is not None and x == 0, r == 2))


def c29(x: Optional[int]) -> None:
    r = 0
    match x:
        case None:
            r = 1
        case 0:
            r = 2
        case int() as z:
            r = z
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x is not None and x == 0, r == 0))
