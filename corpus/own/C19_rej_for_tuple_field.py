from nagini_contracts.contracts import *
from typing import List, Tuple

GPair = Tuple[int, int]
MarkGhost(GPair)


class Cell:
    def __init__(self) -> None:
        self.val = 0  # type: int
        Ensures(Acc(self.val))


def fill(c: Cell, ps: List[GPair]) -> None:
    Requires(Acc(c.val))
    Requires(Acc(list_pred(ps)))
    Ensures(Acc(c.val))
    #:: ExpectedOutput(invalid.program:invalid.ghost.For)
    for a, c.val in ps:
        Invariant(Acc(c.val))
        Invariant(Acc(list_pred(ps), 1/2))
        pass
