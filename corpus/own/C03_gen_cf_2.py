from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0 and n == 5 and b1 > 0, c.t == 1245678 and Result() == -6))
    Ensures(Implies(b0 > 0 and n == 5 and not (b1 > 0), c.t == 145678 and Result() == -3))
    Ensures(Implies(b0 > 0 and not (n == 5), c.t == 78 and Result() == 0))
    Ensures(Implies(not (b0 > 0), c.t == 78 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b0 > 0 and n == 5 and b1 > 0, c.t == 1245679))
    x = 0
    if n == 5 and b0 > 0:
        if ev(c, 1, b1 > 0) and ev(c, 2, b0 > 0):
            x = x + 3
        x += num(c, 4, 4)
        x = num(c, 5, 1) - num(c, 6, x)
    c.t = c.t * 10 + 7
    c.t = c.t * 10 + 8
    return x


def m1(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0 and b2 > 0 and n == 5, c.t == 13 and Result() == 6))
    Ensures(Implies(b0 > 0 and b2 > 0 and not (n == 5), c.t == 14 and Result() == 6))
    Ensures(Implies(b0 > 0 and not (b2 > 0) and n == 5 and b1 > 0, c.t == 132345 and Result() == 5))
    Ensures(Implies(b0 > 0 and not (b2 > 0) and n == 5 and not (b1 > 0), c.t == 13 and Result() == 1))
    Ensures(Implies(b0 > 0 and not (b2 > 0) and not (n == 5), c.t == 14895 and Result() == 1))
    Ensures(Implies(not (b0 > 0) and b1 > 0 and n == 5 and b2 > 0, c.t == 123 and Result() == 6))
    Ensures(Implies(not (b0 > 0) and b1 > 0 and n == 5 and not (b2 > 0), c.t == 1232345 and Result() == 5))
    Ensures(Implies(not (b0 > 0) and b1 > 0 and not (n == 5), c.t == 1242345 and Result() == 5))
    Ensures(Implies(not (b0 > 0) and not (b1 > 0), c.t == 125 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b0 > 0) and not (b1 > 0), c.t == 126))
    x = 0
    if ev(c, 1, b0 > 0) or ev(c, 2, b1 > 0):
        if ev(c, 3, b2 > 0) if n == 5 else ev(c, 4, b0 > 0):
            if b2 > 0 or n == 5:
                x = x + 5
                return 6
            else:
                x = num(c, 8, 1) - num(c, 9, x)
        else:
            if not b1 > 0:
                return 1
            if b1 > 0 or n > 0:
                x = num(c, 2, 4) - num(c, 3, x)
                x += num(c, 4, 1)
    c.t = c.t * 10 + 5
    return x


def m2(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(n == 5 and b0 > 0, c.t == 12345 and Result() == 0))
    Ensures(Implies(n == 5 and not (b0 > 0), c.t == 123 and Result() == 0))
    Ensures(Implies(not (n == 5), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(n == 5 and b0 > 0, c.t == 12346))
    x = 0
    if n == 5:
        c.t = c.t * 10 + 1
        if ev(c, 2, n == 5) == ev(c, 3, b0 > 0):
            if ev(c, 4, n == 5) and ev(c, 5, b0 > 0):
                return x
            else:
                c.t = c.t * 10 + 7
                return 8
        else:
            if b1 > 0 or n > 0:
                return x
            else:
                x += num(c, 7, 3)
            if b2 > 0 and n == 5:
                x = num(c, 8, 0) - num(c, 9, x)
            else:
                c.t = c.t * 10 + 1
                x = x + 2
    return x


def m3(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(n == 5 and b1 > 0 and b0 > 0, c.t == 124 and Result() == 0))
    Ensures(Implies(n == 5 and b1 > 0 and not (b0 > 0), c.t == 12457 and Result() == 1252))
    Ensures(Implies(n == 5 and not (b1 > 0) and b2 > 0 and b0 > 0, c.t == 1234 and Result() == 0))
    Ensures(Implies(n == 5 and not (b1 > 0) and b2 > 0 and not (b0 > 0), c.t == 123457 and Result() == 12352))
    Ensures(Implies(n == 5 and not (b1 > 0) and not (b2 > 0), c.t == 1237 and Result() == 130))
    Ensures(Implies(not (n == 5), c.t == 17 and Result() == 8))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(n == 5 and b1 > 0 and not (b0 > 0), Result() == 1253))
    x = 0
    if ev(c, 1, n == 5) and (ev(c, 2, b1 > 0) or ev(c, 3, b2 > 0)):
        if ev(c, 4, b0 > 0):
            if n == 5:
                return x
            x = x + 8
            if ev(c, 9, b1 > 0) == ev(c, 1, n > 0):
                return 2
            else:
                c.t = c.t * 10 + 3
                return 4
        x += num(c, 5, 2)
    else:
        x = x + 6
    x, c.t = (c.t + 7, c.t * 10 + 7)
    return x


def m4(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(n == 5 and b0 > 0, c.t == 13467 and Result() == 0))
    Ensures(Implies(n == 5 and not (b0 > 0), c.t == 1 and Result() == 0))
    Ensures(Implies(not (n == 5) and b2 > 0 and b0 > 0, c.t == 2346 and Result() == 0))
    Ensures(Implies(not (n == 5) and b2 > 0 and not (b0 > 0) and b1 > 0, c.t == 238 and Result() == 0))
    Ensures(Implies(not (n == 5) and b2 > 0 and not (b0 > 0) and not (b1 > 0), c.t == 238 and Result() == 2))
    Ensures(Implies(not (n == 5) and not (b2 > 0), c.t == 2 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(n == 5 and not (b0 > 0), c.t == 2))
    x = 0
    if ev(c, 1, b0 > 0) if n == 5 else ev(c, 2, b2 > 0):
        if ev(c, 3, b0 > 0) and (ev(c, 4, b0 > 0) or ev(c, 5, b2 > 0)):
            c.t = c.t * 10 + 6
            if n == 5:
                c.t = c.t * 10 + 7
        elif ev(c, 8, b1 > 0):
            return x
        else:
            return 2
    return x


def m5(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0 and n == 5, c.t == 1345 and Result() == 1))
    Ensures(Implies(b2 > 0 and not (n == 5), c.t == 0 and Result() == 0))
    Ensures(Implies(not (b2 > 0) and b0 > 0 and n == 5, c.t == 0 and Result() == 0))
    Ensures(Implies(not (b2 > 0) and b0 > 0 and not (n == 5), c.t == 23489 and Result() == 8))
    Ensures(Implies(not (b2 > 0) and not (b0 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b2 > 0) and b0 > 0 and n == 5, Result() == 1))
    x = 0
    if b0 > 0 or n == 5:
        if not n == 5:
            if b2 > 0:
                return x
            else:
                x, c.t = (c.t + 2, c.t * 10 + 2)
                x += num(c, 3, 3)
            if ev(c, 4, n == 5) and ev(c, 5, b2 > 0):
                x += num(c, 6, 3)
                return x
            else:
                x += num(c, 8, 3)
                c.t = c.t * 10 + 9
        if b2 > 0:
            if ev(c, 1, n == 5) or ev(c, 2, n > 0):
                c.t = c.t * 10 + 3
            x = num(c, 4, 1) - num(c, 5, x)
    return x
