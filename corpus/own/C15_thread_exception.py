from nagini_contracts.contracts import *
from nagini_contracts.obligations import *
from nagini_contracts.thread import Thread, MayStart, getArg, getMethod, arg, getOld, ThreadPost, Joinable
from typing import Optional


class Cell:
    def __init__(self) -> None:
        Ensures(Acc(self.v))
        Ensures(self.v == 0)
        self.v = 0 # type: int

    def m(self) -> None:
        Requires(MustTerminate(1))
        pass


def fails(c: Cell) -> None:
    Requires(Acc(c.v))
    Requires(MustTerminate(1))
    Ensures(Acc(c.v) and c.v == 1)
    Exsures(Exception, Acc(c.v))
    raise Exception()


def main() -> None:
    c = Cell()
    t = Thread(None, fails, args=(c,))
    t.start(fails)
    t.join(fails)
    #:: ExpectedOutput(assert.failed:insufficient.permission)
    assert c.v == 1


def rec(c: Optional[Cell]) -> None:
    #:: ExpectedOutput(thread.creation.failed:invalid.argument.type)
    t = Thread(None, c.m, args=())
    t.start(Cell.m)

