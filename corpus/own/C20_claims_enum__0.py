from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


from enum import IntEnum
class Color(IntEnum):
    red = 0
    green = 1
    blue = 5
class Lvl(IntEnum):
    low = -1
    mid = 0
    high = 1


def c0() -> None:
    assert Color.red == 0


def c1() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert Color.red == 1


def c2() -> None:
    assert Color.blue == 5


def c3() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert Color.blue == 2


def c4() -> None:
    assert Color.green == Lvl.high


def c5() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert Color.green is Lvl.high


def c6() -> None:
    assert Color.red is Color(0)


def c7() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert Color.red is Color.green


def c8() -> None:
    assert Color.blue is Color(5)


def c9() -> None:
    assert Color(1) == Color.green


def c10() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert Color(5) == Color.green


def c11() -> None:
    assert int(Color.blue) == 5


def c12() -> None:
    assert Color.blue + 1 == 6


def c13() -> None:
    assert Color.blue > Color.green


def c14() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert Color.green > Color.blue


def c15() -> None:
    assert Color.red < Lvl.high


def c16() -> None:
    assert Lvl.low < Lvl.mid


def c17() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert Lvl.low >= Lvl.mid


def c18() -> None:
    assert Lvl.low == -1


def c19() -> None:
    assert Lvl(-1) is Lvl.low


def c20() -> None:
    assert not Color.red


def c21() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert not Color.green


def c22() -> None:
    assert bool(Color.blue)


def c23() -> None:
    assert isinstance(Color.red, int)


def c24() -> None:
    assert isinstance(Color.red, Color)


def c25() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert isinstance(Color.red, Lvl)


def c26() -> None:
    assert type(Color.red) == Color


def c27() -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert type(Color.red) == int


def c28() -> None:
    Color(5)


def c29() -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    Color(2)


def c30() -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    Color(-1)


def c31() -> None:
    Lvl(-1)


def c32() -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    Lvl(5)


def c33(c: Color) -> None:
    assert c == 0 or c == 1 or c == 5


def c34(c: Color) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c == 0 or c == 1


def c35(c: Color) -> None:
    assert c >= 0
