from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b2 > 0))
    Ensures(Implies(not (b2 > 0), c.t == 12123 and Result() == 6))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b2 > 0), Result() == 7))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b2 > 0, c.t == 12 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b2 > 0)))
    x = 0
    try:
        k1 = 2
        while k1 > 0:
            Invariant(Acc(c.t) and 0 <= k1 <= 2)
            Invariant(not (k1 == 0 and b2 > 0))
            Invariant(Implies(k1 == 0 and not (b2 > 0), c.t == 1212 and x == 2))
            Invariant(not (k1 == 1 and b2 > 0))
            Invariant(Implies(k1 == 1 and not (b2 > 0), c.t == 12 and x == 2))
            Invariant(Implies(k1 == 2, c.t == 0 and x == 0))
            k1 = k1 - 1
            c.t = c.t * 10 + 1
            x = boom(c, 2, b2 > 0)
        c.t = c.t * 10 + 3
    finally:
        x = x + 4
    return x


def m1(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b2 > 0))
    Ensures(Implies(not (b2 > 0), c.t == 11 and Result() == 1))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b2 > 0), c.t == 12))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b2 > 0, c.t == 11 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b2 > 0)))
    x = 0
    k1 = 1
    while k1 > 0:
        Invariant(Acc(c.t) and 0 <= k1 <= 1)
        Invariant(not (k1 == 0))
        Invariant(Implies(k1 == 1, c.t == 0 and x == 0))
        k1 = k1 - 1
        try:
            try:
                c.t = c.t * 10 + 1
                raise E1()
            except E1 as e1:
                break
        except Exception:
            if b1 > 0:
                c.t = c.t * 10 + 4
                return 5
            else:
                raise E1()
        finally:
            x = boom(c, 1, b2 > 0)
    return x


def m2(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0 and b1 > 0, c.t == 2 and Result() == 1))
    Ensures(Implies(b0 > 0 and not (b1 > 0), c.t == 0 and Result() == 1))
    Ensures(Implies(not (b0 > 0), c.t == 0 and Result() == 1))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b0 > 0), Result() == 2))
    x = 0
    x = x + 1
    if b0 > 0 and b1 > 0:
        k1 = 2
        while k1 > 0:
            Invariant(Acc(c.t) and 0 <= k1 <= 2)
            Invariant(not (k1 == 0))
            Invariant(not (k1 == 1))
            Invariant(Implies(k1 == 2, c.t == 0 and x == 1))
            Invariant(not (b0 > 0 and not (b1 > 0)))
            Invariant(not (not (b0 > 0)))
            k1 = k1 - 1
            c.t = c.t * 10 + 2
            try:
                return x
            except Exception:
                x = x + 5
    return x
