from nagini_contracts.contracts import *
from typing import List, Tuple, Dict, Optional


class A:
    def m(self, x: GInt) -> None:
        pass

    def r(self) -> int:
        return 1

    def k(self, x: int) -> int:
        return 1


class Cell:
    def __init__(self, v: int) -> None:
        self.v = v  # type: int
        self.g: GInt = v
        Ensures(Acc(self.v) and Acc(self.g) and self.v == v and self.g == v)

    def put(self, x: int) -> None:
        Requires(Acc(self.v))
        Ensures(Acc(self.v))
        self.v = x

    def mk(self) -> 'Cell':
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and Result() is self)
        self.v = self.v + 1
        return self

    def cast(self, x: int) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v))
        self.v = x
        return x

    @property
    def p(self) -> GInt:
        Requires(Acc(self.g))
        return self.g

    def __add__(self, o: 'Cell') -> GInt:
        Requires(Acc(self.g))
        Ensures(Acc(self.g))
        return self.g

    def bump(self) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v))
        self.v = self.v + 1
        return self.v


def reg(x: int) -> int:
    return x


def reg2(x: int, y: int = 0) -> int:
    return x


def impure(c: Cell) -> int:
    Requires(Acc(c.v))
    Ensures(Acc(c.v))
    c.v = 3
    return 1


@Pure
def pu(x: int) -> int:
    return x


@Ghost
def gh(x: int) -> int:
    return x


class E(Exception):
    pass


GCell = Cell
MarkGhost(GCell)


def f(g: GInt, c: Cell) -> None:
    Requires(Acc(c.v) and Acc(c.g))
    #:: ExpectedOutput(invalid.program:invalid.ghost.call)
    gg: GInt = c.mk().g
