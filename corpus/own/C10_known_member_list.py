from nagini_contracts.contracts import *


def member() -> None:
    xs = [[1]]
    ys = [1]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert ys not in xs
