from nagini_contracts.contracts import *


def pong() -> int:
    return 1


def hidden() -> int:
    return HIDDEN


x = pong()
HIDDEN = 6
