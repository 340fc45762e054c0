from nagini_contracts.contracts import *


class M(int):
    def __init__(self, x: int) -> None:
        pass


def f() -> None:
    m = M(5)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert m == 0
