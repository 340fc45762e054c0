from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(n == 5 and b0 > 0, c.t == 1 and Result() == 3))
    Ensures(Implies(n == 5 and not (b0 > 0) and b2 > 0, c.t == 12 and Result() == 3))
    Ensures(Implies(n == 5 and not (b0 > 0) and not (b2 > 0) and b1 > 0, c.t == 126 and Result() == 8))
    Ensures(Implies(n == 5 and not (b0 > 0) and not (b2 > 0) and not (b1 > 0), c.t == 1271 and Result() == 0))
    Ensures(Implies(not (n == 5), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(n == 5 and not (b0 > 0) and not (b2 > 0) and b1 > 0, c.t == 127))
    x = 0
    if n == 5:
        if ev(c, 1, b0 > 0) or ev(c, 2, b2 > 0):
            if b2 > 0 or b0 > 0:
                return 3
        elif ev(c, 6, n == 5) if b1 > 0 else ev(c, 7, b2 > 0):
            return 8
        if n > 0 or b2 > 0:
            c.t = c.t * 10 + 1
        else:
            if not ev(c, 2, b0 > 0):
                x = x + 3
                c.t = c.t * 10 + 4
            else:
                x = x + 5
                c.t = c.t * 10 + 6
            if ev(c, 7, b1 > 0) or ev(c, 8, b2 > 0):
                return x
            else:
                x = x + 1
                return x
    return x


def m1(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0 and b2 > 0 and n > 0, c.t == 123456 and Result() == 2))
    Ensures(Implies(b0 > 0 and b2 > 0 and not (n > 0), c.t == 12 and Result() == 0))
    Ensures(Implies(b0 > 0 and not (b2 > 0) and n > 0, c.t == 12 and Result() == 0))
    Ensures(Implies(b0 > 0 and not (b2 > 0) and not (n > 0), c.t == 1234 and Result() == 0))
    Ensures(Implies(not (b0 > 0) and b2 > 0 and n > 0, c.t == 127 and Result() == 0))
    Ensures(Implies(not (b0 > 0) and b2 > 0 and not (n > 0), c.t == 12 and Result() == 0))
    Ensures(Implies(not (b0 > 0) and not (b2 > 0) and n > 0, c.t == 12 and Result() == 0))
    Ensures(Implies(not (b0 > 0) and not (b2 > 0) and not (n > 0), c.t == 128 and Result() == 2))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b0 > 0) and not (b2 > 0) and n > 0, Result() == 1))
    x = 0
    if ev(c, 1, n > 0) == ev(c, 2, b2 > 0):
        if b0 > 0:
            if num(c, 3, 0) < num(c, 4, n):
                x = num(c, 5, 2) - num(c, 6, x)
        elif ev(c, 7, b2 > 0) if n > 0 else ev(c, 8, b2 > 0):
            return x
        else:
            return 2
    return x


def m2(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0 and n > 0 and b0 > 0 and n == 5, c.t == 1234 and Result() == 3))
    Ensures(Implies(b2 > 0 and n > 0 and b0 > 0 and not (n == 5), c.t == 1235 and Result() == 128))
    Ensures(Implies(b2 > 0 and n > 0 and not (b0 > 0), c.t == 123 and Result() == 7))
    Ensures(Implies(b2 > 0 and not (n > 0) and b1 > 0, c.t == 12391256 and Result() == 3))
    Ensures(Implies(b2 > 0 and not (n > 0) and not (b1 > 0), c.t == 1238 and Result() == 131))
    Ensures(Implies(not (b2 > 0) and n > 0 and b0 > 0 and n == 5, c.t == 14 and Result() == 0))
    Ensures(Implies(not (b2 > 0) and n > 0 and b0 > 0 and not (n == 5), c.t == 15 and Result() == 6))
    Ensures(Implies(not (b2 > 0) and n > 0 and not (b0 > 0), c.t == 1 and Result() == 7))
    Ensures(Implies(not (b2 > 0) and not (n > 0) and b1 > 0, c.t == 191256 and Result() == 0))
    Ensures(Implies(not (b2 > 0) and not (n > 0) and not (b1 > 0), c.t == 18 and Result() == 9))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b2 > 0) and not (n > 0) and b1 > 0, Result() == 1))
    x = 0
    if ev(c, 1, b2 > 0):
        x, c.t = (c.t + 2, c.t * 10 + 2)
        c.t = c.t * 10 + 3
    if n > 0:
        if b0 > 0 and n == 5:
            c.t = c.t * 10 + 4
        elif b0 > 0:
            x, c.t = (c.t + 5, c.t * 10 + 5)
            return x
        else:
            return 7
    else:
        if b1 > 0:
            c.t = c.t * 10 + 9
            if ev(c, 1, n > 0) == ev(c, 2, b1 > 0):
                x += num(c, 3, 0)
                return 4
            else:
                c.t = c.t * 10 + 5
                x += num(c, 6, 0)
                return x
        x, c.t = (c.t + 8, c.t * 10 + 8)
    return x


def m3(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0 and n == 5 and b2 > 0, c.t == 1234 and Result() == 5))
    Ensures(Implies(b1 > 0 and n == 5 and not (b2 > 0), c.t == 12 and Result() == 5))
    Ensures(Implies(b1 > 0 and not (n == 5), c.t == 1 and Result() == 5))
    Ensures(Implies(not (b1 > 0), c.t == 7 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0 and n == 5 and not (b2 > 0), c.t == 13))
    x = 0
    if b1 > 0:
        if b1 > 0:
            if ev(c, 1, n == 5) and ev(c, 2, b2 > 0):
                c.t = c.t * 10 + 3
                c.t = c.t * 10 + 4
            if b1 > 0:
                x = x + 5
                return x
            else:
                x, c.t = (c.t + 7, c.t * 10 + 7)
                c.t = c.t * 10 + 8
        else:
            if not b0 > 0:
                return x
            if ev(c, 2, b2 > 0) or ev(c, 3, b0 > 0):
                return 4
            else:
                return x
    c.t = c.t * 10 + 7
    return x


def m4(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(n > 0, c.t == 7 and Result() == 2))
    Ensures(Implies(not (n > 0) and b2 > 0, c.t == 4623 and Result() == 4))
    Ensures(Implies(not (n > 0) and not (b2 > 0) and b1 > 0, c.t == 4677 and Result() == -2))
    Ensures(Implies(not (n > 0) and not (b2 > 0) and not (b1 > 0), c.t == 489237 and Result() == 4))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (n > 0) and b2 > 0, c.t == 4624))
    x = 0
    x = x + 1
    if not n > 0:
        x = x + 2
        if ev(c, 3, n > 0) if n == 5 else ev(c, 4, b2 > 0):
            if b2 > 0 or n == 5:
                x = x + 5
                c.t = c.t * 10 + 6
            else:
                return 7
            if n == 5 and b2 > 0:
                return x
            if ev(c, 1, n > 0) if n > 0 else ev(c, 2, b2 > 0):
                c.t = c.t * 10 + 3
                return 4
            else:
                return 5
        if b1 > 0:
            if not n > 0:
                x = num(c, 6, 0) - num(c, 7, x)
        else:
            if num(c, 8, 0) < num(c, 9, n):
                c.t = c.t * 10 + 1
            if ev(c, 2, n == 5) or ev(c, 3, n > 0):
                return x
    x += num(c, 7, 1)
    return x


def m5(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0 and b2 > 0 and n == 5, c.t == 123567 and Result() == 0))
    Ensures(Implies(b1 > 0 and b2 > 0 and not (n == 5), c.t == 123564 and Result() == 0))
    Ensures(Implies(b1 > 0 and not (b2 > 0) and n > 0, c.t == 12356891 and Result() == 0))
    Ensures(Implies(b1 > 0 and not (b2 > 0) and not (n > 0), c.t == 12354 and Result() == 5))
    Ensures(Implies(not (b1 > 0) and n == 5, c.t == 1254 and Result() == 0))
    Ensures(Implies(not (b1 > 0) and not (n == 5), c.t == 1254 and Result() == 5))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0 and b2 > 0 and n == 5, Result() == 1))
    x = 0
    c.t = c.t * 10 + 1
    if ev(c, 2, b1 > 0) and ev(c, 3, b2 > 0):
        if b2 > 0:
            if not b1 > 0:
                return x
            else:
                c.t = c.t * 10 + 5
            if ev(c, 6, n == 5) and (ev(c, 7, b2 > 0) or ev(c, 8, n == 5)):
                return x
        elif ev(c, 1, b1 > 0):
            c.t = c.t * 10 + 2
            return 3
        c.t = c.t * 10 + 4
    else:
        c.t = c.t * 10 + 5
        if b1 > 0 and n > 0:
            if ev(c, 6, n > 0) or ev(c, 7, n > 0):
                c.t = c.t * 10 + 8
                x = num(c, 9, 0) - num(c, 1, x)
            else:
                x += num(c, 2, 2)
                return x
        elif not ev(c, 4, n == 5):
            return 5
    return x
