from nagini_contracts.contracts import *


def last(v: int) -> None:
    a, *b, z = v, 2, 3, 4
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert z == 3
