from nagini_contracts.contracts import *
from nagini_contracts.obligations import *
from nagini_contracts.thread import Thread, MayStart, getArg, getMethod, arg, ThreadPost, Joinable


def stops(b: object) -> None:
    Requires(MustTerminate(2))
    pass


def goes_on(b: object) -> None:
    pass


def maybe(b: object) -> None:
    Requires(Implies(b is None, MustTerminate(2)))
    pass


def start_stops(t: Thread, b: object) -> None:
    Requires(Acc(MayStart(t)))
    Requires(getMethod(t) == stops)
    Requires(b is getArg(t, 0))
    Ensures(Joinable(t))
    t.start(stops, goes_on, maybe)


def start_goes_on(t: Thread, b: object) -> None:
    Requires(Acc(MayStart(t)))
    Requires(getMethod(t) == goes_on)
    Requires(b is getArg(t, 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Joinable(t))
    t.start(stops, goes_on, maybe)


def start_maybe(t: Thread, b: object) -> None:
    Requires(Acc(MayStart(t)))
    Requires(getMethod(t) == maybe)
    Requires(b is getArg(t, 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Joinable(t))
    t.start(stops, goes_on, maybe)


def start_maybe_none(t: Thread, b: object) -> None:
    Requires(Acc(MayStart(t)))
    Requires(getMethod(t) == maybe)
    Requires(b is getArg(t, 0) and b is None)
    Ensures(Joinable(t))
    t.start(stops, goes_on, maybe)
