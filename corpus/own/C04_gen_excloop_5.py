from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b0 > 0))
    Ensures(Implies(not (b0 > 0), c.t == 0 and Result() == 0))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b0 > 0, c.t == 1 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b0 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(b0 > 0, isinstance(RaisedException(), E3)))
    x = 0
    if b0 > 0:
        k1 = 1
        while k1 > 0:
            Invariant(Acc(c.t) and 0 <= k1 <= 1)
            Invariant(not (k1 == 0))
            Invariant(Implies(k1 == 1, c.t == 0 and x == 0))
            Invariant(not (not (b0 > 0)))
            k1 = k1 - 1
            try:
                x = boom(c, 1, b0 > 0)
            except E3:
                c.t = c.t * 10 + 2
            else:
                raise E1()
            c.t = c.t * 10 + 4
            try:
                return x
            except E2:
                x = x + 7
    return x


def m1(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0 and b1 > 0, c.t == 125 and Result() == 6))
    Ensures(Implies(b0 > 0 and not (b1 > 0), c.t == 12512591 and Result() == 125134))
    Ensures(Implies(not (b0 > 0), c.t == 91 and Result() == 9))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b0 > 0 and not (b1 > 0), c.t == 12512592))
    x = 0
    if b0 > 0:
        k1 = 2
        while k1 > 0:
            Invariant(Acc(c.t) and 0 <= k1 <= 2)
            Invariant(not (k1 == 0 and b1 > 0))
            Invariant(Implies(k1 == 0 and not (b1 > 0), c.t == 125125 and x == 1253))
            Invariant(not (k1 == 1 and b1 > 0))
            Invariant(Implies(k1 == 1 and not (b1 > 0), c.t == 125 and x == 3))
            Invariant(Implies(k1 == 2, c.t == 0 and x == 0))
            Invariant(not (not (b0 > 0)))
            k1 = k1 - 1
            try:
                x = boom(c, 1, b0 > 0)
            except E2:
                x, c.t = (c.t + 2, c.t * 10 + 2)
            except E1:
                raise E1()
            finally:
                c.t = c.t * 10 + 5
            if b1 > 0:
                return 6
    x, c.t = (c.t + 9, c.t * 10 + 9)
    c.t = c.t * 10 + 1
    return x


def m2(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0, c.t == 171789 and Result() == 0))
    Ensures(Implies(not (b2 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b2 > 0), c.t == 1))
    x = 0
    if b2 > 0:
        k1 = 2
        while k1 > 0:
            Invariant(Acc(c.t) and 0 <= k1 <= 2)
            Invariant(Implies(k1 == 0, c.t == 1717 and x == 0))
            Invariant(Implies(k1 == 1, c.t == 17 and x == 0))
            Invariant(Implies(k1 == 2, c.t == 0 and x == 0))
            Invariant(not (not (b2 > 0)))
            k1 = k1 - 1
            try:
                c.t = c.t * 10 + 1
            except E2:
                continue
            except Exception:
                raise E2()
            c.t = c.t * 10 + 7
        k2 = 1
        while k2 > 0:
            Invariant(Acc(c.t) and 0 <= k2 <= 1)
            Invariant(Implies(k2 == 0, c.t == 171789 and x == 0))
            Invariant(Implies(k2 == 1, c.t == 1717 and x == 0))
            Invariant(not (not (b2 > 0)))
            k2 = k2 - 1
            try:
                c.t = c.t * 10 + 8
                c.t = c.t * 10 + 9
            except E2:
                c.t = c.t * 10 + 1
                break
            except Exception:
                raise E2()
    return x
