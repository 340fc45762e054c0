from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0 and b1 > 0, c.t == 0 and Result() == 0))
    Ensures(Implies(b0 > 0 and not (b1 > 0) and b2 > 0, c.t == 3 and Result() == 6))
    Ensures(Implies(b0 > 0 and not (b1 > 0) and not (b2 > 0), c.t == 33 and Result() == 8))
    Ensures(Implies(not (b0 > 0) and b2 > 0, c.t == 113535 and Result() == 11358))
    Ensures(Implies(not (b0 > 0) and not (b2 > 0), c.t == 1133 and Result() == 8))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b0 > 0) and b2 > 0, c.t == 113536))
    x = 0
    k1 = 2
    while k1 > 0:
        Invariant(Acc(c.t) and 0 <= k1 <= 2)
        Invariant(not (k1 == 0 and b0 > 0 and b1 > 0))
        Invariant(Implies(k1 == 0 and b0 > 0 and not (b1 > 0), c.t == 0 and x == 0))
        Invariant(Implies(k1 == 0 and not (b0 > 0), c.t == 11 and x == 0))
        Invariant(not (k1 == 1 and b0 > 0 and b1 > 0))
        Invariant(Implies(k1 == 1 and b0 > 0 and not (b1 > 0), c.t == 0 and x == 0))
        Invariant(Implies(k1 == 1 and not (b0 > 0), c.t == 1 and x == 0))
        Invariant(Implies(k1 == 2, c.t == 0 and x == 0))
        k1 = k1 - 1
        if not b0 > 0:
            c.t = c.t * 10 + 1
        elif b1 > 0:
            return x
    k2 = 2
    while k2 > 0:
        Invariant(Acc(c.t) and 0 <= k2 <= 2)
        Invariant(not (k2 == 0 and b0 > 0 and b2 > 0))
        Invariant(Implies(k2 == 0 and b0 > 0 and not (b2 > 0), c.t == 33 and x == 8))
        Invariant(Implies(k2 == 0 and not (b0 > 0) and b2 > 0, c.t == 113535 and x == 11358))
        Invariant(Implies(k2 == 0 and not (b0 > 0) and not (b2 > 0), c.t == 1133 and x == 8))
        Invariant(not (k2 == 1 and b0 > 0 and b2 > 0))
        Invariant(Implies(k2 == 1 and b0 > 0 and not (b2 > 0), c.t == 3 and x == 4))
        Invariant(Implies(k2 == 1 and not (b0 > 0) and b2 > 0, c.t == 1135 and x == 118))
        Invariant(Implies(k2 == 1 and not (b0 > 0) and not (b2 > 0), c.t == 113 and x == 4))
        Invariant(Implies(k2 == 2 and b0 > 0, c.t == 0 and x == 0))
        Invariant(Implies(k2 == 2 and not (b0 > 0), c.t == 11 and x == 0))
        Invariant(not (b0 > 0 and b1 > 0))
        k2 = k2 - 1
        c.t = c.t * 10 + 3
        x = x + 4
        if b2 > 0:
            if not b0 > 0:
                x, c.t = (c.t + 5, c.t * 10 + 5)
            else:
                return 6
    return x


def m1(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0 and b0 > 0, c.t == 1 and Result() == 0))
    Ensures(Implies(b1 > 0 and not (b0 > 0), c.t == 2 and Result() == 0))
    Ensures(Implies(not (b1 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0 and b0 > 0, Result() == 1))
    x = 0
    if b1 > 0:
        if b0 > 0:
            c.t = c.t * 10 + 1
        else:
            k1 = 1
            while k1 > 0:
                Invariant(Acc(c.t) and 0 <= k1 <= 1)
                Invariant(Implies(k1 == 0, c.t == 2 and x == 0))
                Invariant(Implies(k1 == 1, c.t == 0 and x == 0))
                Invariant(not (b0 > 0))
                Invariant(not (not (b0 > 0) and not (b1 > 0)))
                k1 = k1 - 1
                c.t = c.t * 10 + 2
    return x


def m2(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0, c.t == 133445 and Result() == 0))
    Ensures(Implies(not (b0 > 0), c.t == 1 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b0 > 0), Result() == 1))
    x = 0
    k1 = 1
    while k1 > 0:
        Invariant(Acc(c.t) and 0 <= k1 <= 1)
        Invariant(Implies(k1 == 0 and b0 > 0, c.t == 133 and x == 0))
        Invariant(not (k1 == 0 and not (b0 > 0)))
        Invariant(Implies(k1 == 1, c.t == 0 and x == 0))
        k1 = k1 - 1
        c.t = c.t * 10 + 1
        if not b0 > 0:
            k2 = 2
            while k2 > 0:
                Invariant(Acc(c.t) and 0 <= k2 <= 2)
                Invariant(not (k1 == 0 and k2 == 0))
                Invariant(not (k1 == 0 and k2 == 1))
                Invariant(Implies(k1 == 0 and k2 == 2, c.t == 1 and x == 0))
                Invariant(not (k1 == 0 and b0 > 0))
                k2 = k2 - 1
                return x
        else:
            k3 = 2
            while k3 > 0:
                Invariant(Acc(c.t) and 0 <= k3 <= 2)
                Invariant(Implies(k1 == 0 and k3 == 0, c.t == 133 and x == 0))
                Invariant(Implies(k1 == 0 and k3 == 1, c.t == 13 and x == 0))
                Invariant(Implies(k1 == 0 and k3 == 2, c.t == 1 and x == 0))
                Invariant(not (k1 == 0 and not (b0 > 0)))
                k3 = k3 - 1
                c.t = c.t * 10 + 3
    k4 = 2
    while k4 > 0:
        Invariant(Acc(c.t) and 0 <= k4 <= 2)
        Invariant(Implies(k4 == 0, c.t == 13344 and x == 0))
        Invariant(Implies(k4 == 1, c.t == 1334 and x == 0))
        Invariant(Implies(k4 == 2, c.t == 133 and x == 0))
        Invariant(not (not (b0 > 0)))
        k4 = k4 - 1
        c.t = c.t * 10 + 4
    c.t = c.t * 10 + 5
    return x


def m3(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0, c.t == 34 and Result() == 3))
    Ensures(Implies(not (b0 > 0), c.t == 234 and Result() == 5))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b0 > 0, Result() == 4))
    x = 0
    k1 = 1
    while k1 > 0:
        Invariant(Acc(c.t) and 0 <= k1 <= 1)
        Invariant(Implies(k1 == 0 and b0 > 0, c.t == 3 and x == 3))
        Invariant(Implies(k1 == 0 and not (b0 > 0), c.t == 23 and x == 5))
        Invariant(Implies(k1 == 1, c.t == 0 and x == 0))
        k1 = k1 - 1
        x = x + 1
        if not b0 > 0:
            c.t = c.t * 10 + 2
        x, c.t = (c.t + 3, c.t * 10 + 3)
    c.t = c.t * 10 + 4
    return x
