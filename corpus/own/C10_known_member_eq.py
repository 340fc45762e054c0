from nagini_contracts.contracts import *


class Q:
    @Pure
    def __eq__(self, other: object) -> bool:
        return True


def member(q: Q, r: Q) -> None:
    Requires(q is not r)
    xs = [q]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r not in xs
