from nagini_contracts.contracts import *


class A:
    def __add__(self, o: 'A') -> int:
        Ensures(Result() == 1)
        return 1


class D(A):
    def __radd__(self, o: A) -> int:
        Ensures(Result() == 2)
        return 2


def f(a: A, b: A) -> int:
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Result() == 1)
    return a + b
