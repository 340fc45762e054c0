from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b1 > 0))
    Ensures(Implies(not (b1 > 0) and b0 > 0, c.t == 124 and Result() == 16))
    Ensures(Implies(not (b1 > 0) and not (b0 > 0), c.t == 1244 and Result() == 128))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b1 > 0) and b0 > 0, c.t == 125))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b1 > 0, c.t == 1 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b1 > 0) and b0 > 0))
    Exsures(Exception, not (not (b1 > 0) and not (b0 > 0)))
    x = 0
    x = boom(c, 1, b1 > 0)
    try:
        x = boom(c, 2, b0 > 0)
        k1 = 1
        while k1 > 0:
            Invariant(Acc(c.t) and 0 <= k1 <= 1)
            Invariant(Implies(k1 == 0, c.t == 124 and x == 2))
            Invariant(Implies(k1 == 1, c.t == 12 and x == 2))
            Invariant(not (b0 > 0))
            Invariant(not (not (b0 > 0) and b1 > 0))
            k1 = k1 - 1
            if b0 > 0:
                return 3
            try:
                c.t = c.t * 10 + 4
            except E3:
                raise E3()
    except Exception as e3:
        if b1 > 0:
            try:
                c.t = c.t * 10 + 7
                x = boom(c, 8, b1 > 0)
                c.t = c.t * 10 + 9
            except Exception:
                c.t = c.t * 10 + 1
                c.t = c.t * 10 + 2
            x = boom(c, 3, b0 > 0)
    x, c.t = (c.t + 4, c.t * 10 + 4)
    return x


def m1(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0, c.t == 2323 and Result() == 1))
    Ensures(not (not (b0 > 0) and b1 > 0))
    Ensures(not (not (b0 > 0) and not (b1 > 0) and b2 > 0))
    Ensures(Implies(not (b0 > 0) and not (b1 > 0) and not (b2 > 0), c.t == 56785678 and Result() == 8))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b0 > 0) and not (b1 > 0) and not (b2 > 0), Result() == 9))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, not (b0 > 0))
    Exsures(Exception, Implies(not (b0 > 0) and b1 > 0, c.t == 56 and isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(not (b0 > 0) and not (b1 > 0) and b2 > 0, c.t == 5678 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b0 > 0) and not (b1 > 0) and not (b2 > 0)))
    x = 0
    x = x + 1
    k1 = 2
    while k1 > 0:
        Invariant(Acc(c.t) and 0 <= k1 <= 2)
        Invariant(Implies(k1 == 0 and b0 > 0, c.t == 2323 and x == 1))
        Invariant(not (k1 == 0 and not (b0 > 0) and b1 > 0))
        Invariant(not (k1 == 0 and not (b0 > 0) and not (b1 > 0) and b2 > 0))
        Invariant(Implies(k1 == 0 and not (b0 > 0) and not (b1 > 0) and not (b2 > 0), c.t == 56785678 and x == 8))
        Invariant(Implies(k1 == 1 and b0 > 0, c.t == 23 and x == 1))
        Invariant(not (k1 == 1 and not (b0 > 0) and b1 > 0))
        Invariant(not (k1 == 1 and not (b0 > 0) and not (b1 > 0) and b2 > 0))
        Invariant(Implies(k1 == 1 and not (b0 > 0) and not (b1 > 0) and not (b2 > 0), c.t == 5678 and x == 8))
        Invariant(Implies(k1 == 2, c.t == 0 and x == 1))
        k1 = k1 - 1
        if not b0 > 0:
            x = x + 2
            try:
                raise E2()
            except E1:
                x = boom(c, 5, b1 > 0)
            finally:
                c.t = c.t * 10 + 6
            try:
                c.t = c.t * 10 + 7
                x = boom(c, 8, b2 > 0)
            except E3:
                c.t = c.t * 10 + 9
                return x
        else:
            c.t = c.t * 10 + 2
            c.t = c.t * 10 + 3
    return x


def m2(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b2 > 0))
    Ensures(not (not (b2 > 0) and b0 > 0))
    Ensures(Implies(not (b2 > 0) and not (b0 > 0), c.t == 6 and Result() == 7))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b2 > 0) and not (b0 > 0), Result() == 8))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b2 > 0, c.t == 0 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(not (b2 > 0) and b0 > 0, c.t == 681 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b2 > 0) and not (b0 > 0)))
    x = 0
    k1 = 1
    while k1 > 0:
        Invariant(Acc(c.t) and 0 <= k1 <= 1)
        Invariant(not (k1 == 0))
        Invariant(Implies(k1 == 1, c.t == 0 and x == 0))
        k1 = k1 - 1
        if b2 > 0:
            try:
                raise E1()
            except E3:
                raise E1()
        else:
            c.t = c.t * 10 + 6
            x = x + 7
            if b0 > 0:
                c.t = c.t * 10 + 8
            else:
                return x
        k2 = 1
        while k2 > 0:
            Invariant(Acc(c.t) and 0 <= k2 <= 1)
            Invariant(not (k1 == 0 and k2 == 0))
            Invariant(Implies(k1 == 0 and k2 == 1, c.t == 68 and x == 7))
            Invariant(not (k1 == 0 and b0 > 0 and b2 > 0))
            Invariant(not (k1 == 0 and not (b0 > 0)))
            k2 = k2 - 1
            x = boom(c, 1, b0 > 0)
    return x
