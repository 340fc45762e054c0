from nagini_contracts.contracts import *


M = 4


class A:
    def m(self, x: int = M) -> int:
        Requires(True)
        return x


class B:
    #:: ExpectedOutput(assert.failed:assertion.false)
    def m(self, x: int = N) -> int:
        Requires(True)
        return x


N = 5
