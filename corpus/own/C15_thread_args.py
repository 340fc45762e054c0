from nagini_contracts.contracts import *
from nagini_contracts.thread import Thread, MayStart, getArg, getMethod, arg, getOld, ThreadPost, Joinable


class A:
    def __init__(self) -> None:
        Ensures(Acc(self.x))
        self.x = 1 # type: int


class B:
    pass


def two(a: A, b: A) -> None:
    Requires(True)
    pass


def both(x: B, y: B) -> None:
    #:: ExpectedOutput(thread.creation.failed:invalid.argument.type)
    t = Thread(None, two, args=(x, y))
