from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0, c.t == 123 and Result() == 0))
    Ensures(Implies(not (b1 > 0) and b2 > 0, c.t == 123 and Result() == 0))
    Ensures(Implies(not (b1 > 0) and not (b2 > 0), c.t == 1 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0, c.t == 124))
    x = 0
    k1 = 1
    while k1 > 0:
        Invariant(Acc(c.t) and 0 <= k1 <= 1)
        Invariant(Implies(k1 == 0, c.t == 1 and x == 0))
        Invariant(Implies(k1 == 1, c.t == 0 and x == 0))
        k1 = k1 - 1
        c.t = c.t * 10 + 1
    k2 = 1
    while k2 > 0:
        Invariant(Acc(c.t) and 0 <= k2 <= 1)
        Invariant(Implies(k2 == 0 and b1 > 0, c.t == 123 and x == 0))
        Invariant(Implies(k2 == 0 and not (b1 > 0) and b2 > 0, c.t == 123 and x == 0))
        Invariant(Implies(k2 == 0 and not (b1 > 0) and not (b2 > 0), c.t == 1 and x == 0))
        Invariant(Implies(k2 == 1, c.t == 1 and x == 0))
        k2 = k2 - 1
        if b1 > 0 or b2 > 0:
            k3 = 1
            while k3 > 0:
                Invariant(Acc(c.t) and 0 <= k3 <= 1)
                Invariant(Implies(k2 == 0 and k3 == 0, c.t == 12 and x == 0))
                Invariant(Implies(k2 == 0 and k3 == 1, c.t == 1 and x == 0))
                Invariant(not (k2 == 0 and not (b1 > 0) and not (b2 > 0)))
                k3 = k3 - 1
                c.t = c.t * 10 + 2
            c.t = c.t * 10 + 3
    return x


def m1(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0 and b0 > 0, c.t == 2342348 and Result() == 236))
    Ensures(Implies(b2 > 0 and not (b0 > 0), c.t == 24241 and Result() == 2425))
    Ensures(Implies(not (b2 > 0), c.t == 1 and Result() == 1))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b2 > 0 and b0 > 0, c.t == 2342349))
    x = 0
    k1 = 2
    while k1 > 0:
        Invariant(Acc(c.t) and 0 <= k1 <= 2)
        Invariant(Implies(k1 == 0 and b2 > 0 and b0 > 0, c.t == 234234 and x == 236))
        Invariant(Implies(k1 == 0 and b2 > 0 and not (b0 > 0), c.t == 2424 and x == 26))
        Invariant(Implies(k1 == 0 and not (b2 > 0), c.t == 0 and x == 2))
        Invariant(Implies(k1 == 1 and b2 > 0 and b0 > 0, c.t == 234 and x == 2))
        Invariant(Implies(k1 == 1 and b2 > 0 and not (b0 > 0), c.t == 24 and x == 2))
        Invariant(Implies(k1 == 1 and not (b2 > 0), c.t == 0 and x == 1))
        Invariant(Implies(k1 == 2, c.t == 0 and x == 0))
        k1 = k1 - 1
        x = x + 1
        if b2 > 0:
            x, c.t = (c.t + 2, c.t * 10 + 2)
            if b0 > 0:
                c.t = c.t * 10 + 3
            if b2 > 0:
                c.t = c.t * 10 + 4
        elif b2 > 0:
            c.t = c.t * 10 + 5
            x, c.t = (c.t + 6, c.t * 10 + 6)
            c.t = c.t * 10 + 7
    k2 = 1
    while k2 > 0:
        Invariant(Acc(c.t) and 0 <= k2 <= 1)
        Invariant(Implies(k2 == 0 and b2 > 0 and b0 > 0, c.t == 2342348 and x == 236))
        Invariant(Implies(k2 == 0 and b2 > 0 and not (b0 > 0), c.t == 24241 and x == 2425))
        Invariant(Implies(k2 == 0 and not (b2 > 0), c.t == 1 and x == 1))
        Invariant(Implies(k2 == 1 and b2 > 0 and b0 > 0, c.t == 234234 and x == 236))
        Invariant(Implies(k2 == 1 and b2 > 0 and not (b0 > 0), c.t == 2424 and x == 26))
        Invariant(Implies(k2 == 1 and not (b2 > 0), c.t == 0 and x == 2))
        k2 = k2 - 1
        if b2 > 0:
            if b0 > 0:
                c.t = c.t * 10 + 8
            if b0 > 0:
                continue
        x, c.t = (c.t + 1, c.t * 10 + 1)
    return x


def m2(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0, c.t == 12 and Result() == 3))
    Ensures(Implies(not (b1 > 0), c.t == 127 and Result() == 8))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b1 > 0), c.t == 128))
    x = 0
    c.t = c.t * 10 + 1
    k1 = 1
    while k1 > 0:
        Invariant(Acc(c.t) and 0 <= k1 <= 1)
        Invariant(not (k1 == 0))
        Invariant(Implies(k1 == 1, c.t == 1 and x == 0))
        k1 = k1 - 1
        k2 = 1
        while k2 > 0:
            Invariant(Acc(c.t) and 0 <= k2 <= 1)
            Invariant(not (k1 == 0 and k2 == 0))
            Invariant(Implies(k1 == 0 and k2 == 1, c.t == 1 and x == 0))
            k2 = k2 - 1
            c.t = c.t * 10 + 2
            if b1 > 0 and b1 > 0:
                return 3
            if b1 > 0:
                continue
            else:
                c.t = c.t * 10 + 7
                return 8
        c.t = c.t * 10 + 9
        k3 = 2
        while k3 > 0:
            Invariant(Acc(c.t))
            k3 = k3 - 1
            if b2 > 0:
                c.t = c.t * 10 + 1
                c.t = c.t * 10 + 2
            x = x + 3
    return x


def m3(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0, c.t == 157 and Result() == 1))
    Ensures(Implies(not (b2 > 0) and b1 > 0, c.t == 23423467 and Result() == 0))
    Ensures(Implies(not (b2 > 0) and not (b1 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b2 > 0, Result() == 2))
    x = 0
    if b1 > 0 or b2 > 0:
        if b2 > 0:
            x, c.t = (c.t + 1, c.t * 10 + 1)
        else:
            k1 = 2
            while k1 > 0:
                Invariant(Acc(c.t) and 0 <= k1 <= 2)
                Invariant(Implies(k1 == 0, c.t == 234234 and x == 0))
                Invariant(Implies(k1 == 1, c.t == 234 and x == 0))
                Invariant(Implies(k1 == 2, c.t == 0 and x == 0))
                Invariant(not (b1 > 0 and b2 > 0))
                Invariant(not (not (b1 > 0)))
                k1 = k1 - 1
                c.t = c.t * 10 + 2
                c.t = c.t * 10 + 3
                c.t = c.t * 10 + 4
        if b2 > 0 or b1 > 0:
            if b2 > 0:
                c.t = c.t * 10 + 5
            else:
                c.t = c.t * 10 + 6
            c.t = c.t * 10 + 7
    return x
