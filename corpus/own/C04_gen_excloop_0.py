from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b1 > 0))
    Ensures(not (not (b1 > 0) and b2 > 0))
    Ensures(Implies(not (b1 > 0) and not (b2 > 0), c.t == 1212 and Result() == 2))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b1 > 0, c.t == 1 and isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(not (b1 > 0) and b2 > 0, c.t == 12 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b1 > 0) and not (b2 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(b1 > 0, isinstance(RaisedException(), E3)))
    x = 0
    k1 = 2
    while k1 > 0:
        Invariant(Acc(c.t) and 0 <= k1 <= 2)
        Invariant(not (k1 == 0 and b1 > 0))
        Invariant(not (k1 == 0 and not (b1 > 0) and b2 > 0))
        Invariant(Implies(k1 == 0 and not (b1 > 0) and not (b2 > 0), c.t == 1212 and x == 2))
        Invariant(not (k1 == 1 and b1 > 0))
        Invariant(not (k1 == 1 and not (b1 > 0) and b2 > 0))
        Invariant(Implies(k1 == 1 and not (b1 > 0) and not (b2 > 0), c.t == 12 and x == 2))
        Invariant(Implies(k1 == 2, c.t == 0 and x == 0))
        k1 = k1 - 1
        x = boom(c, 1, b1 > 0)
        x = boom(c, 2, b2 > 0)
    if b1 > 0:
        c.t = c.t * 10 + 3
        try:
            if b1 > 0:
                c.t = c.t * 10 + 4
                return x
            else:
                raise E1()
        finally:
            c.t = c.t * 10 + 7
    return x


def m1(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b2 > 0))
    Ensures(not (not (b2 > 0) and b1 > 0 and b0 > 0))
    Ensures(Implies(not (b2 > 0) and b1 > 0 and not (b0 > 0), c.t == 57 and Result() == 7))
    Ensures(Implies(not (b2 > 0) and not (b1 > 0), c.t == 0 and Result() == 6))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b2 > 0, c.t == 1 and isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(not (b2 > 0) and b1 > 0 and b0 > 0, c.t == 57 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b2 > 0) and b1 > 0 and not (b0 > 0)))
    Exsures(Exception, not (not (b2 > 0) and not (b1 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(b2 > 0, isinstance(RaisedException(), E3)))
    x = 0
    k1 = 1
    while k1 > 0:
        Invariant(Acc(c.t) and 0 <= k1 <= 1)
        Invariant(not (k1 == 0 and b0 > 0))
        Invariant(not (k1 == 0 and not (b0 > 0) and b1 > 0 and b2 > 0))
        Invariant(Implies(k1 == 0 and not (b0 > 0) and b1 > 0 and not (b2 > 0), c.t == 57 and x == 7))
        Invariant(not (k1 == 0 and not (b0 > 0) and not (b1 > 0)))
        Invariant(Implies(k1 == 1, c.t == 0 and x == 0))
        k1 = k1 - 1
        if b2 > 0:
            x = boom(c, 1, b2 > 0)
            try:
                raise E2()
            except E3:
                continue
            finally:
                x = x + 4
        elif b1 > 0:
            c.t = c.t * 10 + 5
        else:
            return 6
        x = boom(c, 7, b0 > 0)
    return x


def m2(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0, c.t == 11 and Result() == 0))
    Ensures(not (not (b0 > 0)))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, not (b0 > 0))
    Exsures(Exception, Implies(not (b0 > 0), c.t == 112 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(not (b0 > 0), isinstance(RaisedException(), E3)))
    x = 0
    k1 = 2
    while k1 > 0:
        Invariant(Acc(c.t) and 0 <= k1 <= 2)
        Invariant(Implies(k1 == 0, c.t == 11 and x == 0))
        Invariant(Implies(k1 == 1, c.t == 1 and x == 0))
        Invariant(Implies(k1 == 2, c.t == 0 and x == 0))
        k1 = k1 - 1
        c.t = c.t * 10 + 1
    k2 = 1
    while k2 > 0:
        Invariant(Acc(c.t) and 0 <= k2 <= 1)
        Invariant(Implies(k2 == 0 and b0 > 0, c.t == 11 and x == 0))
        Invariant(not (k2 == 0 and not (b0 > 0)))
        Invariant(Implies(k2 == 1, c.t == 11 and x == 0))
        k2 = k2 - 1
        if not b0 > 0:
            try:
                c.t = c.t * 10 + 2
                raise E2()
            except E2:
                raise E1()
            except Exception as e1:
                x, c.t = (c.t + 5, c.t * 10 + 5)
                return x
    return x
