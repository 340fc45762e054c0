from nagini_contracts.contracts import *
from nagini_contracts.obligations import *
from nagini_contracts.lock import Lock
from nagini_contracts.thread import Thread, MayStart, getArg, getMethod, arg, ThreadPost, Joinable


class Cell:
    def __init__(self) -> None:
        self.value = 0  # type: int
        Ensures(Acc(self.value) and self.value == 0)


class CellLock(Lock[Cell]):
    @Predicate
    def invariant(self) -> bool:
        return Acc(self.get_locked().value)


def target(l: CellLock) -> None:
    Requires(MustTerminate(2))
    Requires(WaitLevel() < Level(l))
    Ensures(WaitLevel() < Level(l))
    pass


def joiner(l: CellLock, c: Cell, t: Thread) -> None:
    Requires(l.get_locked() is c)
    Requires(getMethod(t) == target)
    Requires(getArg(t, 0) is l)
    Requires(Acc(ThreadPost(t)))
    Requires(Joinable(t))
    Requires(WaitLevel() < Level(t))
    t.join(target)
    #:: ExpectedOutput(call.precondition:assertion.false)
    l.acquire()
    l.release()
