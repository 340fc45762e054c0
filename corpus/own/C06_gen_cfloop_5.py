from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0, c.t == 1 and Result() == 0))
    Ensures(Implies(not (b1 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0, c.t == 2))
    x = 0
    k1 = 1
    while k1 > 0:
        Invariant(Acc(c.t) and 0 <= k1 <= 1)
        Invariant(not (k1 == 0 and b1 > 0))
        Invariant(Implies(k1 == 0 and not (b1 > 0), c.t == 0 and x == 0))
        Invariant(Implies(k1 == 1, c.t == 0 and x == 0))
        k1 = k1 - 1
        if b1 > 0:
            c.t = c.t * 10 + 1
            if b1 > 0:
                break
    return x


def m1(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0 and b2 > 0 and b0 > 0, c.t == 0 and Result() == 3))
    Ensures(Implies(b1 > 0 and b2 > 0 and not (b0 > 0), c.t == 2677 and Result() == 1))
    Ensures(Implies(b1 > 0 and not (b2 > 0), c.t == 0 and Result() == 1))
    Ensures(Implies(not (b1 > 0) and b2 > 0, c.t == 0 and Result() == 1))
    Ensures(Implies(not (b1 > 0) and not (b2 > 0), c.t == 8 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0 and b2 > 0 and b0 > 0, Result() == 4))
    x = 0
    if b2 > 0 or b1 > 0:
        k1 = 1
        while k1 > 0:
            Invariant(Acc(c.t) and 0 <= k1 <= 1)
            Invariant(Implies(k1 == 0, c.t == 0 and x == 1))
            Invariant(Implies(k1 == 1, c.t == 0 and x == 0))
            Invariant(not (not (b1 > 0) and not (b2 > 0)))
            k1 = k1 - 1
            x = x + 1
        if b2 > 0 and b1 > 0:
            if not b0 > 0:
                c.t = c.t * 10 + 2
            else:
                return 3
            c.t = c.t * 10 + 6
            k2 = 2
            while k2 > 0:
                Invariant(Acc(c.t) and 0 <= k2 <= 2)
                Invariant(Implies(k2 == 0, c.t == 2677 and x == 1))
                Invariant(Implies(k2 == 1, c.t == 267 and x == 1))
                Invariant(Implies(k2 == 2, c.t == 26 and x == 1))
                Invariant(not (b0 > 0))
                Invariant(not (not (b0 > 0) and b1 > 0 and not (b2 > 0)))
                Invariant(not (not (b0 > 0) and not (b1 > 0)))
                k2 = k2 - 1
                c.t = c.t * 10 + 7
    else:
        c.t = c.t * 10 + 8
    return x


def m2(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0, c.t == 112234345 and Result() == 0))
    Ensures(Implies(not (b1 > 0), c.t == 1134345 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0, c.t == 112234346))
    x = 0
    k1 = 2
    while k1 > 0:
        Invariant(Acc(c.t) and 0 <= k1 <= 2)
        Invariant(Implies(k1 == 0, c.t == 11 and x == 0))
        Invariant(Implies(k1 == 1, c.t == 1 and x == 0))
        Invariant(Implies(k1 == 2, c.t == 0 and x == 0))
        k1 = k1 - 1
        c.t = c.t * 10 + 1
    k2 = 2
    while k2 > 0:
        Invariant(Acc(c.t) and 0 <= k2 <= 2)
        Invariant(Implies(k2 == 0 and b1 > 0, c.t == 1122 and x == 0))
        Invariant(Implies(k2 == 0 and not (b1 > 0), c.t == 11 and x == 0))
        Invariant(Implies(k2 == 1 and b1 > 0, c.t == 112 and x == 0))
        Invariant(Implies(k2 == 1 and not (b1 > 0), c.t == 11 and x == 0))
        Invariant(Implies(k2 == 2, c.t == 11 and x == 0))
        k2 = k2 - 1
        if b1 > 0:
            c.t = c.t * 10 + 2
    k3 = 1
    while k3 > 0:
        Invariant(Acc(c.t) and 0 <= k3 <= 1)
        Invariant(Implies(k3 == 0 and b1 > 0, c.t == 112234345 and x == 0))
        Invariant(Implies(k3 == 0 and not (b1 > 0), c.t == 1134345 and x == 0))
        Invariant(Implies(k3 == 1 and b1 > 0, c.t == 1122 and x == 0))
        Invariant(Implies(k3 == 1 and not (b1 > 0), c.t == 11 and x == 0))
        k3 = k3 - 1
        k4 = 2
        while k4 > 0:
            Invariant(Acc(c.t) and 0 <= k4 <= 2)
            Invariant(Implies(k3 == 0 and k4 == 0 and b1 > 0, c.t == 11223434 and x == 0))
            Invariant(Implies(k3 == 0 and k4 == 0 and not (b1 > 0), c.t == 113434 and x == 0))
            Invariant(Implies(k3 == 0 and k4 == 1 and b1 > 0, c.t == 112234 and x == 0))
            Invariant(Implies(k3 == 0 and k4 == 1 and not (b1 > 0), c.t == 1134 and x == 0))
            Invariant(Implies(k3 == 0 and k4 == 2 and b1 > 0, c.t == 1122 and x == 0))
            Invariant(Implies(k3 == 0 and k4 == 2 and not (b1 > 0), c.t == 11 and x == 0))
            k4 = k4 - 1
            c.t = c.t * 10 + 3
            c.t = c.t * 10 + 4
        c.t = c.t * 10 + 5
    return x


def m3(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0, c.t == 1 and Result() == 1))
    Ensures(Implies(not (b2 > 0), c.t == 33 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b2 > 0, c.t == 2))
    x = 0
    if b2 > 0:
        x, c.t = (c.t + 1, c.t * 10 + 1)
    else:
        k1 = 2
        while k1 > 0:
            Invariant(Acc(c.t) and 0 <= k1 <= 2)
            Invariant(Implies(k1 == 0, c.t == 33 and x == 0))
            Invariant(Implies(k1 == 1, c.t == 3 and x == 0))
            Invariant(Implies(k1 == 2, c.t == 0 and x == 0))
            Invariant(not (b2 > 0))
            k1 = k1 - 1
            if b2 > 0:
                continue
            c.t = c.t * 10 + 3
    return x
