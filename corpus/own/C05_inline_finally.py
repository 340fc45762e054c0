from nagini_contracts.contracts import *


class A:
    def __init__(self) -> None:
        self.n = 0  # type: int
        Ensures(Acc(self.n) and self.n == 0)


@Inline
def f(a: A, b: bool) -> int:
    try:
        a.n += 1
        if b:
            return 1
        a.n += 10
    finally:
        a.n += 100
    return 2


@Inline
def g(a: A) -> int:
    i = 0
    while i < 3:
        Invariant(Acc(a.n) and i >= 0 and i <= 1 and a.n == 100 * i)
        try:
            i += 1
            if i == 2:
                break
            continue
        finally:
            a.n += 100
    return a.n


def m1() -> None:
    a = A()
    r = f(a, True)
    assert r == 1
    assert a.n == 101


def m1b() -> None:
    a = A()
    r = f(a, True)
    s = f(a, False)
    assert r == 1
    assert s == 2
    assert a.n == 212

def m2() -> None:
    a = A()
    r = g(a)
    assert r == 200


def bad() -> None:
    a = A()
    r = f(a, True)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 2


def bad_loop() -> None:
    a = A()
    g(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a.n == 100
