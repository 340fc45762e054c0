from nagini_contracts.contracts import *
from nagini_contracts.thread import Thread, MayStart, getArg, getMethod, ThreadPost, getOld, arg
from nagini_contracts.obligations import MustTerminate


def put(x: int) -> None:
    Requires(True)


def client_create(g: GInt) -> Thread:
    #:: ExpectedOutput(invalid.program:invalid.ghost.call)
    t = Thread(target=put, group=None, args=(g,))
    return t
