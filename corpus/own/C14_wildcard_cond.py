from nagini_contracts.contracts import *


@Pure
def down(n: int) -> int:
    Decreases(None, n > 0)
    if n > 0:
        return n
    return 0


@Pure
def caller_pos(n: int) -> int:
    Requires(n > 3)
    Decreases(n)
    return down(n)


@Pure
def caller_any(n: int) -> int:
    Decreases(n)
    #:: ExpectedOutput(termination.failed:termination.condition.false)
    return down(n)
