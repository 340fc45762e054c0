from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(n > 0, c.t == 0 and Result() == 0))
    Ensures(Implies(not (n > 0), c.t == 1 and Result() == 5))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(n > 0, c.t == 1))
    x = 0
    if not n > 0:
        if not ev(c, 1, n > 0):
            if n > 0:
                c.t = c.t * 10 + 2
                return x
            else:
                return 5
        x = x + 2
    return x


def m1(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(n > 0 and b2 > 0, c.t == 146 and Result() == 6))
    Ensures(Implies(n > 0 and not (b2 > 0), c.t == 145 and Result() == 3))
    Ensures(Implies(not (n > 0) and b0 > 0 and b2 > 0, c.t == 1246 and Result() == 6))
    Ensures(Implies(not (n > 0) and b0 > 0 and not (b2 > 0), c.t == 1245 and Result() == 3))
    Ensures(Implies(not (n > 0) and not (b0 > 0) and b1 > 0, c.t == 12789 and Result() == 2))
    Ensures(Implies(not (n > 0) and not (b0 > 0) and not (b1 > 0), c.t == 127 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (n > 0) and not (b0 > 0) and b1 > 0, Result() == 3))
    x = 0
    if ev(c, 1, n > 0) or ev(c, 2, b0 > 0):
        x = x + 3
        if ev(c, 4, b2 > 0) or ev(c, 5, b2 > 0):
            x += num(c, 6, 3)
    elif ev(c, 7, b1 > 0):
        if ev(c, 8, n == 5) or ev(c, 9, n == 5):
            x += num(c, 1, 3)
        else:
            return 2
        if ev(c, 4, b0 > 0) if b2 > 0 else ev(c, 5, n > 0):
            return x
    return x


def m2(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(n > 0 and b2 > 0, c.t == 17 and Result() == 5))
    Ensures(Implies(n > 0 and not (b2 > 0) and n == 5, c.t == 17 and Result() == 8))
    Ensures(Implies(n > 0 and not (b2 > 0) and not (n == 5), c.t == 17 and Result() == 0))
    Ensures(Implies(not (n > 0) and b0 > 0, c.t == 123 and Result() == 9))
    Ensures(Implies(not (n > 0) and not (b0 > 0), c.t == 123 and Result() == 11))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(n > 0 and not (b2 > 0) and n == 5, Result() == 9))
    x = 0
    c.t = c.t * 10 + 1
    if not n > 0:
        if ev(c, 2, n == 5) or ev(c, 3, b0 > 0):
            x = x + 4
            if n > 0:
                x, c.t = (c.t + 5, c.t * 10 + 5)
        else:
            x = x + 6
    else:
        c.t = c.t * 10 + 7
        if not b2 > 0:
            if n == 5:
                return 8
            if b2 > 0:
                x, c.t = (c.t + 1, c.t * 10 + 1)
                x = x + 2
                return 3
            else:
                return x
    x = x + 5
    return x


def m3(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0 and n > 0, c.t == 0 and Result() == 1))
    Ensures(Implies(b0 > 0 and not (n > 0) and b1 > 0, c.t == 12789 and Result() == -7))
    Ensures(Implies(b0 > 0 and not (n > 0) and not (b1 > 0), c.t == 0 and Result() == 9))
    Ensures(Implies(not (b0 > 0) and b1 > 0 and n > 0, c.t == 12345656 and Result() == -2))
    Ensures(Implies(not (b0 > 0) and b1 > 0 and not (n > 0), c.t == 127 and Result() == 2))
    Ensures(Implies(not (b0 > 0) and not (b1 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b0 > 0) and b1 > 0 and not (n > 0), Result() == 3))
    x = 0
    if b0 > 0:
        if n > 0 and b0 > 0:
            if n > 0 and b0 > 0:
                return 1
            else:
                c.t = c.t * 10 + 3
                c.t = c.t * 10 + 4
            if not ev(c, 5, b0 > 0):
                return 6
            if b2 > 0 or n > 0:
                return 8
        x = x + 9
    if b1 > 0 and b1 > 0:
        if num(c, 1, 0) < num(c, 2, n):
            if num(c, 3, 0) < num(c, 4, n):
                x += num(c, 5, 2)
            c.t = c.t * 10 + 6
        elif ev(c, 7, b0 > 0):
            x = num(c, 8, 2) - num(c, 9, x)
            return x
        else:
            return 2
        x = num(c, 5, 0) - num(c, 6, x)
    return x


def m4(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0 and n == 5, c.t == 13 and Result() == 0))
    Ensures(Implies(b2 > 0 and not (n == 5) and b0 > 0 and b1 > 0, c.t == 145678 and Result() == 1))
    Ensures(Implies(b2 > 0 and not (n == 5) and b0 > 0 and not (b1 > 0) and n > 0, c.t == 1781234 and Result() == 3))
    Ensures(Implies(b2 > 0 and not (n == 5) and b0 > 0 and not (b1 > 0) and not (n > 0), c.t == 1781 and Result() == 0))
    Ensures(Implies(b2 > 0 and not (n == 5) and not (b0 > 0) and b1 > 0 and n > 0, c.t == 145671234 and Result() == 2))
    Ensures(Implies(b2 > 0 and not (n == 5) and not (b0 > 0) and b1 > 0 and not (n > 0), c.t == 145671 and Result() == 1))
    Ensures(Implies(b2 > 0 and not (n == 5) and not (b0 > 0) and not (b1 > 0) and n > 0, c.t == 171234 and Result() == 3))
    Ensures(Implies(b2 > 0 and not (n == 5) and not (b0 > 0) and not (b1 > 0) and not (n > 0), c.t == 171 and Result() == 0))
    Ensures(Implies(not (b2 > 0) and n == 5, c.t == 23 and Result() == 0))
    Ensures(Implies(not (b2 > 0) and not (n == 5) and b0 > 0 and b1 > 0, c.t == 245678 and Result() == 1))
    Ensures(Implies(not (b2 > 0) and not (n == 5) and b0 > 0 and not (b1 > 0) and n > 0, c.t == 2781234 and Result() == 3))
    Ensures(Implies(not (b2 > 0) and not (n == 5) and b0 > 0 and not (b1 > 0) and not (n > 0), c.t == 2781 and Result() == 0))
    Ensures(Implies(not (b2 > 0) and not (n == 5) and not (b0 > 0) and b1 > 0 and n > 0, c.t == 245671234 and Result() == 2))
    Ensures(Implies(not (b2 > 0) and not (n == 5) and not (b0 > 0) and b1 > 0 and not (n > 0), c.t == 245671 and Result() == 1))
    Ensures(Implies(not (b2 > 0) and not (n == 5) and not (b0 > 0) and not (b1 > 0) and n > 0, c.t == 271234 and Result() == 3))
    Ensures(Implies(not (b2 > 0) and not (n == 5) and not (b0 > 0) and not (b1 > 0) and not (n > 0), c.t == 271 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b2 > 0) and not (n == 5) and not (b0 > 0) and not (b1 > 0) and n > 0, c.t == 271235))
    x = 0
    if ev(c, 1, n == 5) if b2 > 0 else ev(c, 2, n == 5):
        c.t = c.t * 10 + 3
    else:
        if b1 > 0:
            x = num(c, 4, 1) - num(c, 5, x)
            c.t = c.t * 10 + 6
        if ev(c, 7, b0 > 0) and ev(c, 8, b1 > 0):
            if n == 5:
                c.t = c.t * 10 + 9
        elif ev(c, 1, n > 0):
            x = num(c, 2, 3) - num(c, 3, x)
            x += num(c, 4, 0)
        else:
            return x
    return x


def m5(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0 and b0 > 0, c.t == 13459 and Result() == 0))
    Ensures(Implies(b1 > 0 and not (b0 > 0), c.t == 135 and Result() == 0))
    Ensures(Implies(not (b1 > 0) and n > 0 and b0 > 0 and n == 5, c.t == 123459 and Result() == 0))
    Ensures(Implies(not (b1 > 0) and n > 0 and b0 > 0 and not (n == 5), c.t == 1234 and Result() == 0))
    Ensures(Implies(not (b1 > 0) and n > 0 and not (b0 > 0) and n == 5, c.t == 1235 and Result() == 0))
    Ensures(Implies(not (b1 > 0) and n > 0 and not (b0 > 0) and not (n == 5), c.t == 123 and Result() == 0))
    Ensures(Implies(not (b1 > 0) and not (n > 0), c.t == 12 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b1 > 0) and not (n > 0), Result() == 1))
    x = 0
    if ev(c, 1, b1 > 0) or ev(c, 2, n > 0):
        c.t = c.t * 10 + 3
        if b0 > 0:
            c.t = c.t * 10 + 4
    if n == 5 or b1 > 0:
        if not ev(c, 5, b0 > 0):
            if b0 > 0:
                return 6
            else:
                return x
        c.t = c.t * 10 + 9
    return x
