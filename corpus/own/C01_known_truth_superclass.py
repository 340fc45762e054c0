from nagini_contracts.contracts import *


class A:
    pass


class B(A):
    @Pure
    def __bool__(self) -> bool:
        return False


def truth(a: A) -> None:
    x = 1 if a else 0
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x == 1
