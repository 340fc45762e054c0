from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0, c.t == 11 and Result() == 2))
    Ensures(Implies(not (b1 > 0), c.t == 0 and Result() == 2))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0, c.t == 12))
    x = 0
    k1 = 2
    while k1 > 0:
        Invariant(Acc(c.t) and 0 <= k1 <= 2)
        Invariant(Implies(k1 == 0 and b1 > 0, c.t == 11 and x == 0))
        Invariant(Implies(k1 == 0 and not (b1 > 0), c.t == 0 and x == 0))
        Invariant(Implies(k1 == 1 and b1 > 0, c.t == 1 and x == 0))
        Invariant(Implies(k1 == 1 and not (b1 > 0), c.t == 0 and x == 0))
        Invariant(Implies(k1 == 2, c.t == 0 and x == 0))
        k1 = k1 - 1
        if b1 > 0:
            c.t = c.t * 10 + 1
    x = x + 2
    return x


def m1(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0, c.t == 1 and Result() == 0))
    Ensures(Implies(not (b0 > 0) and b1 > 0, c.t == 5679 and Result() == 4))
    Ensures(Implies(not (b0 > 0) and not (b1 > 0), c.t == 59 and Result() == 4))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b0 > 0, c.t == 2))
    x = 0
    k1 = 1
    while k1 > 0:
        Invariant(Acc(c.t) and 0 <= k1 <= 1)
        Invariant(not (k1 == 0 and b0 > 0))
        Invariant(Implies(k1 == 0 and not (b0 > 0), c.t == 5 and x == 4))
        Invariant(Implies(k1 == 1, c.t == 0 and x == 0))
        k1 = k1 - 1
        if b0 > 0:
            c.t = c.t * 10 + 1
            if b0 > 0:
                return x
            else:
                x = x + 3
        else:
            x = x + 4
        c.t = c.t * 10 + 5
    k2 = 1
    while k2 > 0:
        Invariant(Acc(c.t) and 0 <= k2 <= 1)
        Invariant(Implies(k2 == 0 and b1 > 0, c.t == 567 and x == 4))
        Invariant(Implies(k2 == 0 and not (b1 > 0), c.t == 5 and x == 4))
        Invariant(Implies(k2 == 1, c.t == 5 and x == 4))
        Invariant(not (b0 > 0))
        k2 = k2 - 1
        k3 = 1
        while k3 > 0:
            Invariant(Acc(c.t) and 0 <= k3 <= 1)
            Invariant(not (k2 == 0 and k3 == 0 and b1 > 0))
            Invariant(Implies(k2 == 0 and k3 == 0 and not (b1 > 0), c.t == 5 and x == 4))
            Invariant(Implies(k2 == 0 and k3 == 1, c.t == 5 and x == 4))
            Invariant(not (k2 == 0 and b0 > 0))
            k3 = k3 - 1
            if b1 > 0:
                c.t = c.t * 10 + 6
                c.t = c.t * 10 + 7
                break
    c.t = c.t * 10 + 9
    return x


def m2(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0, c.t == 0 and Result() == 0))
    Ensures(Implies(not (b1 > 0), c.t == 6 and Result() == 6))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0, Result() == 1))
    x = 0
    if b1 > 0:
        k1 = 2
        while k1 > 0:
            Invariant(Acc(c.t) and 0 <= k1 <= 2)
            Invariant(not (k1 == 0))
            Invariant(not (k1 == 1))
            Invariant(Implies(k1 == 2, c.t == 0 and x == 0))
            Invariant(not (not (b1 > 0)))
            k1 = k1 - 1
            k2 = 1
            while k2 > 0:
                Invariant(Acc(c.t) and 0 <= k2 <= 1)
                Invariant(not (k1 == 1 and k2 == 0))
                Invariant(Implies(k1 == 1 and k2 == 1, c.t == 0 and x == 0))
                Invariant(not (k1 == 1 and not (b1 > 0)))
                k2 = k2 - 1
                return x
            c.t = c.t * 10 + 4
    k3 = 1
    while k3 > 0:
        Invariant(Acc(c.t) and 0 <= k3 <= 1)
        Invariant(Implies(k3 == 0, c.t == 6 and x == 6))
        Invariant(Implies(k3 == 1, c.t == 0 and x == 0))
        Invariant(not (b1 > 0))
        k3 = k3 - 1
        x = x + 5
        x, c.t = (c.t + 6, c.t * 10 + 6)
    return x


def m3(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0, c.t == 1791791 and Result() == 16))
    Ensures(Implies(not (b0 > 0) and b2 > 0, c.t == 1791791 and Result() == 16))
    Ensures(Implies(not (b0 > 0) and not (b2 > 0), c.t == 0 and Result() == 3))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b0 > 0, Result() == 17))
    x = 0
    k1 = 2
    while k1 > 0:
        Invariant(Acc(c.t) and 0 <= k1 <= 2)
        Invariant(Implies(k1 == 0 and b0 > 0, c.t == 179179 and x == 16))
        Invariant(Implies(k1 == 0 and not (b0 > 0) and b2 > 0, c.t == 179179 and x == 16))
        Invariant(not (k1 == 0 and not (b0 > 0) and not (b2 > 0)))
        Invariant(Implies(k1 == 1 and b0 > 0, c.t == 179 and x == 8))
        Invariant(Implies(k1 == 1 and not (b0 > 0) and b2 > 0, c.t == 179 and x == 8))
        Invariant(not (k1 == 1 and not (b0 > 0) and not (b2 > 0)))
        Invariant(Implies(k1 == 2, c.t == 0 and x == 0))
        k1 = k1 - 1
        if b2 > 0 or b0 > 0:
            c.t = c.t * 10 + 1
        else:
            x = x + 2
            k2 = 2
            while k2 > 0:
                Invariant(Acc(c.t) and 0 <= k2 <= 2)
                Invariant(not (k1 == 1 and k2 == 0))
                Invariant(not (k1 == 1 and k2 == 1))
                Invariant(Implies(k1 == 1 and k2 == 2, c.t == 0 and x == 2))
                Invariant(not (k1 == 1 and b0 > 0))
                Invariant(not (k1 == 1 and not (b0 > 0) and b2 > 0))
                k2 = k2 - 1
                return 3
            k3 = 2
            while k3 > 0:
                Invariant(Acc(c.t))
                k3 = k3 - 1
                break
        c.t = c.t * 10 + 7
        k4 = 1
        while k4 > 0:
            Invariant(Acc(c.t) and 0 <= k4 <= 1)
            Invariant(Implies(k1 == 0 and k4 == 0, c.t == 179179 and x == 16))
            Invariant(Implies(k1 == 0 and k4 == 1, c.t == 17917 and x == 8))
            Invariant(Implies(k1 == 1 and k4 == 0, c.t == 179 and x == 8))
            Invariant(Implies(k1 == 1 and k4 == 1, c.t == 17 and x == 0))
            Invariant(not (k1 == 0 and not (b0 > 0) and not (b2 > 0)))
            Invariant(not (k1 == 1 and not (b0 > 0) and not (b2 > 0)))
            k4 = k4 - 1
            x = x + 8
            c.t = c.t * 10 + 9
    c.t = c.t * 10 + 1
    return x
