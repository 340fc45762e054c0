from nagini_contracts.contracts import *
from nagini_contracts.obligations import *
from nagini_contracts.thread import Thread, MayStart, getArg, getMethod, arg, getOld, ThreadPost, Joinable


class Cell:
    def km(self, *, k: int) -> None:
        Requires(MustTerminate(1))
        Ensures(k > 0)
        Assume(k > 0)


def kw(c: Cell) -> None:
    #:: ExpectedOutput(unsupported:Thread target with keyword-only arguments.)
    t = Thread(None, c.km, args=(3,))
    t.start(Cell.km)
    t.join(Cell.km)
