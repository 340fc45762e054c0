from nagini_contracts.contracts import *
from typing import List, Tuple, Dict, Optional


class Cell:
    def __init__(self, v: int) -> None:
        self.v = v  # type: int
        self.g = v  # type: GInt
        Ensures(Acc(self.v) and Acc(self.g) and self.v == v and self.g == v)

    def put(self, x: int) -> None:
        Requires(Acc(self.v))
        Ensures(Acc(self.v))
        self.v = x

    def bump(self) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v))
        self.v = self.v + 1
        return self.v


def reg(x: int) -> int:
    return x


def reg2(x: int, y: int = 0) -> int:
    return x


def impure(c: Cell) -> int:
    Requires(Acc(c.v))
    Ensures(Acc(c.v))
    c.v = 3
    return 1


@Pure
def pu(x: int) -> int:
    return x


@Ghost
def gh(x: int) -> int:
    return x


class E(Exception):
    pass


def f(g: GInt, c: Cell) -> None:
    l = [1]
    #:: ExpectedOutput(invalid.program:invalid.ghost.call)
    l.append(g)
