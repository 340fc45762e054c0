from nagini_contracts.contracts import *


class P:
    def __init__(self, x: int, y: int, z: int) -> None:
        self.x = x  # type: int
        self.y = y  # type: int
        self.z = z  # type: int
        Ensures(Acc(self.x) and Acc(self.y) and Acc(self.z) and self.x == x and self.y == y and self.z == z)


class Q(P):
    def __init__(self, x: int) -> None:
        self.x = x  # type: int
        self.y = 0  # type: int
        self.z = 0  # type: int
        Ensures(Acc(self.x) and Acc(self.y) and Acc(self.z) and self.x == x and self.y == 0 and self.z == 0)


def three(p: P) -> int:
    Requires(Acc(p.x) and Acc(p.y) and Acc(p.z))
    Ensures(Acc(p.x) and Acc(p.y) and Acc(p.z))
    Ensures(Implies(p.x == 1 and p.y == 2 and p.z == 3, Result() == 10))
    Ensures(Implies(p.x != 1 and p.y == 5, Result() == 3 + p.z))
    Ensures(Implies(p.y == 2 and p.z == 3 and p.x != 1, Result() == 0))
    Ensures(Implies(p.x == 1 and p.z == 3 and p.y != 2 and p.y != 5, Result() == 0))
    Ensures(Implies(p.x == 1 and p.y == 2 and p.z != 3, Result() == 0))
    match p:
        case P(x=1, y=2, z=3):
            return 10
        case P(y=5, z=w):
            return 3 + w
        case _:
            return 0


def three_wrong(p: P) -> int:
    Requires(Acc(p.x) and Acc(p.y) and Acc(p.z))
    Ensures(Acc(p.x) and Acc(p.y) and Acc(p.z))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(p.z == 3, Result() == 10))
    match p:
        case P(x=1, y=2, z=3):
            return 10
        case P(x=1, z=3):
            return 10
        case _:
            return 0


def sub(p: P) -> int:
    Requires(Acc(p.x) and Acc(p.y) and Acc(p.z))
    Ensures(Implies(isinstance(p, Q) and Old(p.x) == 4, Result() == 1))
    Ensures(Implies(not isinstance(p, Q), Result() == 2))
    match p:
        case Q(x=4, y=_):
            return 1
        case P(x=_, y=b):
            if isinstance(p, Q):
                return 3
            return 2
        case _:
            return 9


def guard(p: P, k: int) -> int:
    Requires(Acc(p.x) and Acc(p.y) and Acc(p.z))
    Ensures(Implies(Old(p.x) == 7 and Old(p.y) > k, Result() == Old(p.y)))
    Ensures(Implies(Old(p.x) == 7 and Old(p.y) <= k, Result() == 0))
    Ensures(Implies(Old(p.x) != 7 and Old(p.y) > k, Result() == 0))
    match p:
        case P(x=7, y=b) if b > k:
            return b
        case _:
            return 0
