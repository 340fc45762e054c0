from nagini_contracts.contracts import *
import lib_c12_c


def ping() -> int:
    return lib_c12_c.pong()


def own() -> int:
    return INNER


INNER = 2
