from nagini_contracts.contracts import *
from typing import Union

class A:
    def num(self) -> int:
        Ensures(Result() >= 0)
        return 0

    @Pure
    def pnum(self) -> int:
        Ensures(Result() >= 0)
        return 3

class B(A):
    def num(self) -> int:
        Ensures(Result() >= 1)
        return 1

class C:
    def num(self) -> int:
        Ensures(Result() == 7)
        return 7

    @Pure
    def pnum(self) -> int:
        Ensures(Result() == 5)
        return 5

def m(u: Union[A, B, C]) -> int:
    Ensures(Result() >= 0)
    Ensures(Implies(isinstance(u, B), Result() >= 1))
    Ensures(Implies(isinstance(u, C) and not isinstance(u, A), Result() == 7))
    r = u.num()
    return r

def p(u: Union[A, B, C]) -> None:
    r = u.pnum()
    if isinstance(u, B):
        assert r >= 0
    elif isinstance(u, A):
        assert r >= 0
    else:
        assert r == 5
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r >= 4
