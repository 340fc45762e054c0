from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0 and n == 5, c.t == 1278 and Result() == 1))
    Ensures(Implies(b1 > 0 and not (n == 5), c.t == 1291 and Result() == 0))
    Ensures(Implies(not (b1 > 0) and b2 > 0 and n > 0 and b0 > 0, c.t == 123 and Result() == 4))
    Ensures(Implies(not (b1 > 0) and b2 > 0 and n > 0 and not (b0 > 0), c.t == 125 and Result() == 7))
    Ensures(Implies(not (b1 > 0) and b2 > 0 and not (n > 0), c.t == 12 and Result() == 0))
    Ensures(Implies(not (b1 > 0) and not (b2 > 0), c.t == 12945 and Result() == 4))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0 and not (n == 5), c.t == 1292))
    x = 0
    c.t = c.t * 10 + 1
    if not ev(c, 2, b1 > 0):
        if b2 > 0 and n > 0:
            if b0 > 0:
                c.t = c.t * 10 + 3
                return 4
            else:
                c.t = c.t * 10 + 5
                x = x + 6
            if b2 > 0:
                return 7
            else:
                x, c.t = (c.t + 8, c.t * 10 + 8)
        else:
            if not b2 > 0:
                c.t = c.t * 10 + 9
            else:
                return x
            x = num(c, 4, 4) - num(c, 5, x)
            if b1 > 0:
                c.t = c.t * 10 + 6
    elif n == 5:
        x = num(c, 7, 1) - num(c, 8, x)
    else:
        x = num(c, 9, 0) - num(c, 1, x)
    return x


def m1(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(n > 0 and n == 5 and b0 > 0 and b2 > 0, c.t == 56 and Result() == 0))
    Ensures(Implies(n > 0 and n == 5 and b0 > 0 and not (b2 > 0), c.t == 5 and Result() == 0))
    Ensures(Implies(n > 0 and n == 5 and not (b0 > 0), c.t == 12 and Result() == 3))
    Ensures(Implies(n > 0 and not (n == 5) and b2 > 0, c.t == 23 and Result() == 4))
    Ensures(Implies(n > 0 and not (n == 5) and not (b2 > 0), c.t == 235 and Result() == 0))
    Ensures(Implies(not (n > 0) and b1 > 0, c.t == 26 and Result() == 1))
    Ensures(Implies(not (n > 0) and not (b1 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(n > 0 and n == 5 and b0 > 0 and not (b2 > 0), Result() == 1))
    x = 0
    if b1 > 0 or n > 0:
        if n == 5:
            if not b0 > 0:
                x = num(c, 1, 2) - num(c, 2, x)
                return 3
            if ev(c, 5, b2 > 0) and (ev(c, 6, n == 5) or ev(c, 7, n == 5)):
                return x
        else:
            if ev(c, 2, n > 0) and ev(c, 3, b2 > 0):
                return 4
            if n > 0:
                c.t = c.t * 10 + 5
            else:
                x += num(c, 6, 1)
    return x


def m2(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(n > 0 and n == 5, c.t == 0 and Result() == 0))
    Ensures(Implies(n > 0 and not (n == 5) and b0 > 0, c.t == 126 and Result() == 0))
    Ensures(Implies(n > 0 and not (n == 5) and not (b0 > 0), c.t == 12 and Result() == 0))
    Ensures(Implies(not (n > 0) and b2 > 0, c.t == 134 and Result() == 4))
    Ensures(Implies(not (n > 0) and not (b2 > 0), c.t == 171 and Result() == 2))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(n > 0 and not (n == 5) and b0 > 0, c.t == 127))
    x = 0
    if not n == 5:
        c.t = c.t * 10 + 1
        if b2 > 0 or n > 0:
            if n > 0:
                c.t = c.t * 10 + 2
            else:
                x += num(c, 3, 1)
                x += num(c, 4, 3)
                return x
            if b0 > 0 and n > 0:
                c.t = c.t * 10 + 6
        else:
            c.t = c.t * 10 + 7
            if n > 0:
                c.t = c.t * 10 + 8
                x = x + 9
            else:
                c.t = c.t * 10 + 1
                return 2
    return x


def m3(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0 and b0 > 0 and n > 0 and b1 > 0, c.t == 0 and Result() == 1))
    Ensures(Implies(b2 > 0 and b0 > 0 and n > 0 and not (b1 > 0), c.t == 0 and Result() == 4))
    Ensures(Implies(b2 > 0 and b0 > 0 and not (n > 0), c.t == 1 and Result() == 2))
    Ensures(Implies(b2 > 0 and not (b0 > 0) and b1 > 0 and n > 0, c.t == 0 and Result() == 1))
    Ensures(Implies(b2 > 0 and not (b0 > 0) and b1 > 0 and not (n > 0), c.t == 0 and Result() == 0))
    Ensures(Implies(b2 > 0 and not (b0 > 0) and not (b1 > 0), c.t == 0 and Result() == 0))
    Ensures(Implies(not (b2 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b2 > 0 and not (b0 > 0) and not (b1 > 0), c.t == 1))
    x = 0
    if b0 > 0 or b1 > 0:
        if n > 0 and b2 > 0:
            if b1 > 0:
                return 1
            else:
                return 4
        elif b0 > 0 and b2 > 0:
            x += num(c, 1, 0)
            return 2
        else:
            return x
    return x


def m4(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0 and b1 > 0, c.t == 0 and Result() == 0))
    Ensures(Implies(b2 > 0 and not (b1 > 0) and n > 0 and n == 5, c.t == 67 and Result() == 0))
    Ensures(Implies(b2 > 0 and not (b1 > 0) and n > 0 and not (n == 5), c.t == 678 and Result() == 0))
    Ensures(Implies(b2 > 0 and not (b1 > 0) and not (n > 0), c.t == 0 and Result() == 0))
    Ensures(Implies(not (b2 > 0) and n > 0, c.t == 6 and Result() == 0))
    Ensures(Implies(not (b2 > 0) and not (n > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b2 > 0 and not (b1 > 0) and not (n > 0), Result() == 1))
    x = 0
    if b2 > 0 and b1 > 0:
        if not b2 > 0:
            if ev(c, 1, n > 0) and ev(c, 2, b1 > 0):
                return 3
    elif n > 0 and n > 0:
        if ev(c, 6, b2 > 0) and (ev(c, 7, n == 5) or ev(c, 8, b2 > 0)):
            return x
    return x


def m5(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(n > 0 and b1 > 0 and b2 > 0, c.t == 1678912 and Result() == -1))
    Ensures(Implies(n > 0 and b1 > 0 and not (b2 > 0), c.t == 1 and Result() == 0))
    Ensures(Implies(n > 0 and not (b1 > 0) and n == 5, c.t == 1 and Result() == 3))
    Ensures(Implies(n > 0 and not (b1 > 0) and not (n == 5) and b2 > 0, c.t == 16789 and Result() == 2))
    Ensures(Implies(n > 0 and not (b1 > 0) and not (n == 5) and not (b2 > 0), c.t == 1 and Result() == 0))
    Ensures(Implies(not (n > 0) and b2 > 0, c.t == 12678 and Result() == 2))
    Ensures(Implies(not (n > 0) and not (b2 > 0), c.t == 12 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(n > 0 and not (b1 > 0) and not (n == 5) and b2 > 0, Result() == 3))
    x = 0
    if ev(c, 1, n > 0) or ev(c, 2, b2 > 0):
        if not b1 > 0:
            if b1 > 0 or n == 5:
                return 3
        if b2 > 0:
            x = num(c, 6, 2) - num(c, 7, x)
            if ev(c, 8, n > 0) and ev(c, 9, b1 > 0):
                x = num(c, 1, 1) - num(c, 2, x)
                return x
    return x
