from nagini_contracts.contracts import *
from nagini_contracts.obligations import *
from nagini_contracts.lock import Lock


class Cell:
    def __init__(self) -> None:
        self.value = 0  # type: int
        Ensures(Acc(self.value) and self.value == 0)


class CellLock(Lock[Cell]):
    @Predicate
    def invariant(self) -> bool:
        return Acc(self.get_locked().value)


@Inline
def three() -> int:
    return 3


def first() -> None:
    a = three()


def takes(l: CellLock, c: Cell) -> None:
    Requires(l.get_locked() is c)
    Requires(WaitLevel() < Level(l))
    l.acquire()
    l.release()


def caller(l: CellLock, c: Cell) -> None:
    Requires(l.get_locked() is c)
    #:: ExpectedOutput(call.precondition:assertion.false)
    takes(l, c)
