from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0, c.t == 2 and Result() == 1))
    Ensures(Implies(not (b1 > 0), c.t == 34 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b1 > 0), c.t == 35))
    x = 0
    k1 = 1
    while k1 > 0:
        Invariant(Acc(c.t) and 0 <= k1 <= 1)
        Invariant(not (k1 == 0 and b1 > 0))
        Invariant(Implies(k1 == 0 and not (b1 > 0), c.t == 34 and x == 0))
        Invariant(Implies(k1 == 1, c.t == 0 and x == 0))
        k1 = k1 - 1
        if b1 > 0:
            try:
                return 1
            finally:
                x, c.t = (c.t + 2, c.t * 10 + 2)
        else:
            c.t = c.t * 10 + 3
            c.t = c.t * 10 + 4
    return x


def m1(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b1 > 0 and b0 > 0))
    Ensures(not (b1 > 0 and not (b0 > 0) and b2 > 0))
    Ensures(Implies(b1 > 0 and not (b0 > 0) and not (b2 > 0), c.t == 15591 and Result() == 164))
    Ensures(Implies(not (b1 > 0), c.t == 1 and Result() == 0))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b1 > 0 and b0 > 0, c.t == 19 and isinstance(RaisedException(), E3)))
    Exsures(Exception, Implies(b1 > 0 and not (b0 > 0) and b2 > 0, c.t == 15569 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (b1 > 0 and not (b0 > 0) and not (b2 > 0)))
    Exsures(Exception, not (not (b1 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(b1 > 0 and b0 > 0, c.t == 20))
    x = 0
    if b1 > 0:
        try:
            try:
                c.t = c.t * 10 + 1
            except E2:
                c.t = c.t * 10 + 2
            if b0 > 0:
                raise E3()
            else:
                raise E1()
        except E1 as e2:
            k1 = 2
            while k1 > 0:
                Invariant(Acc(c.t) and 0 <= k1 <= 2)
                Invariant(Implies(k1 == 0, c.t == 155 and x == 0))
                Invariant(Implies(k1 == 1, c.t == 15 and x == 0))
                Invariant(Implies(k1 == 2, c.t == 1 and x == 0))
                Invariant(not (b0 > 0))
                Invariant(not (not (b0 > 0) and not (b1 > 0)))
                k1 = k1 - 1
                c.t = c.t * 10 + 5
            if b2 > 0:
                x = boom(c, 6, b1 > 0)
                c.t = c.t * 10 + 7
        finally:
            x, c.t = (c.t + 9, c.t * 10 + 9)
    c.t = c.t * 10 + 1
    return x


def m2(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0, c.t == 3 and Result() == 2))
    Ensures(Implies(not (b2 > 0), c.t == 3 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b2 > 0), Result() == 1))
    x = 0
    if b2 > 0:
        try:
            k1 = 1
            while k1 > 0:
                Invariant(Acc(c.t) and 0 <= k1 <= 1)
                Invariant(Implies(k1 == 0, c.t == 0 and x == 0))
                Invariant(Implies(k1 == 1, c.t == 0 and x == 0))
                Invariant(not (not (b2 > 0)))
                k1 = k1 - 1
                continue
        except E2:
            if b1 > 0:
                return x
            else:
                raise E3()
        finally:
            x = x + 2
    c.t = c.t * 10 + 3
    return x
