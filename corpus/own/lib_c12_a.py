from nagini_contracts.contracts import *

COUNT = 3


def plain() -> int:
    Ensures(Result() == 4)
    return 4


def uses_count() -> int:
    return COUNT


def uses_late() -> int:
    return LATE


def calls_late() -> int:
    return later()


class Base:
    def get(self) -> int:
        Ensures(Result() == 7)
        return 7


def later() -> int:
    return 5


LATE = 9
