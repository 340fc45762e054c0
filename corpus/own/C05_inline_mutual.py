from nagini_contracts.contracts import *


@Inline
def f(i: int) -> int:
    return g(i)


@Inline
def g(i: int) -> int:
    #:: ExpectedOutput(invalid.program:recursive.static.call)
    return f(i)


def m() -> int:
    return f(3)
