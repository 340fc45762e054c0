from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0, c.t == 17 and Result() == 1))
    Ensures(Implies(not (b2 > 0) and b1 > 0 and n > 0, c.t == 123 and Result() == 1))
    Ensures(Implies(not (b2 > 0) and b1 > 0 and not (n > 0), c.t == 1233457 and Result() == 3))
    Ensures(Implies(not (b2 > 0) and not (b1 > 0) and n > 0, c.t == 123 and Result() == 9))
    Ensures(Implies(not (b2 > 0) and not (b1 > 0) and not (n > 0), c.t == 123 and Result() == 1))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b2 > 0) and b1 > 0 and n > 0, c.t == 124))
    x = 0
    x, c.t = (c.t + 1, c.t * 10 + 1)
    if not b2 > 0:
        if num(c, 2, 0) < num(c, 3, n):
            if not n > 0:
                x = x + 4
                x = num(c, 5, 3) - num(c, 6, x)
                return 7
            if b1 > 0:
                return x
            else:
                return 9
        elif b1 > 0:
            x = num(c, 3, 4) - num(c, 4, x)
            c.t = c.t * 10 + 5
        else:
            return x
    c.t = c.t * 10 + 7
    return x


def m1(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0 and b1 > 0, c.t == 1 and Result() == 1))
    Ensures(Implies(b0 > 0 and not (b1 > 0) and n > 0, c.t == 1 and Result() == 1))
    Ensures(Implies(b0 > 0 and not (b1 > 0) and not (n > 0), c.t == 0 and Result() == 0))
    Ensures(Implies(not (b0 > 0) and b1 > 0, c.t == 1 and Result() == 1))
    Ensures(Implies(not (b0 > 0) and not (b1 > 0) and n > 0, c.t == 1 and Result() == 1))
    Ensures(Implies(not (b0 > 0) and not (b1 > 0) and not (n > 0), c.t == 5 and Result() == 6))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b0 > 0 and not (b1 > 0) and not (n > 0), c.t == 1))
    x = 0
    if n > 0 or b1 > 0:
        x += num(c, 1, 1)
    else:
        if not b1 > 0:
            if b0 > 0 and b0 > 0:
                return x
            else:
                x, c.t = (c.t + 5, c.t * 10 + 5)
                return 6
        if ev(c, 7, b1 > 0) and (ev(c, 8, b0 > 0) or ev(c, 9, b2 > 0)):
            if ev(c, 1, b1 > 0) or ev(c, 2, n == 5):
                x = x + 3
                return x
            if b1 > 0 and n == 5:
                x += num(c, 6, 1)
        else:
            x = x + 7
            if n > 0 and n == 5:
                return 8
            else:
                c.t = c.t * 10 + 1
    return x


def m2(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(n > 0 and b0 > 0 and b1 > 0, c.t == 123 and Result() == 1))
    Ensures(Implies(n > 0 and b0 > 0 and not (b1 > 0), c.t == 0 and Result() == 0))
    Ensures(Implies(n > 0 and not (b0 > 0), c.t == 0 and Result() == 0))
    Ensures(Implies(not (n > 0), c.t == 6 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(n > 0 and b0 > 0 and not (b1 > 0), Result() == 1))
    x = 0
    if n > 0:
        if b0 > 0 and b1 > 0:
            x, c.t = (c.t + 1, c.t * 10 + 1)
            if n > 0 or b1 > 0:
                c.t = c.t * 10 + 2
                c.t = c.t * 10 + 3
            else:
                return x
    else:
        c.t = c.t * 10 + 6
        if b1 > 0 and n > 0:
            if not b1 > 0:
                c.t = c.t * 10 + 7
                return x
            else:
                return x
        elif n == 5:
            return 1
    return x


def m3(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(n > 0 and b0 > 0 and b2 > 0, c.t == 134578 and Result() == 1))
    Ensures(Implies(n > 0 and b0 > 0 and not (b2 > 0), c.t == 134 and Result() == 0))
    Ensures(Implies(n > 0 and not (b0 > 0), c.t == 13 and Result() == 4))
    Ensures(Implies(not (n > 0) and b1 > 0 and b0 > 0 and b2 > 0, c.t == 1234578 and Result() == 1))
    Ensures(Implies(not (n > 0) and b1 > 0 and b0 > 0 and not (b2 > 0), c.t == 1234 and Result() == 0))
    Ensures(Implies(not (n > 0) and b1 > 0 and not (b0 > 0), c.t == 123 and Result() == 4))
    Ensures(Implies(not (n > 0) and not (b1 > 0) and b2 > 0, c.t == 122 and Result() == 0))
    Ensures(Implies(not (n > 0) and not (b1 > 0) and not (b2 > 0), c.t == 12245 and Result() == 1229))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (n > 0) and not (b1 > 0) and b2 > 0, Result() == 1))
    x = 0
    if ev(c, 1, n > 0) or ev(c, 2, b1 > 0):
        if ev(c, 3, b0 > 0):
            if ev(c, 4, b2 > 0):
                c.t = c.t * 10 + 5
            else:
                return x
            if ev(c, 7, b1 > 0) == ev(c, 8, b1 > 0):
                x = x + 9
                return 1
        else:
            if b0 > 0:
                x += num(c, 2, 3)
                x += num(c, 3, 4)
            else:
                return 4
            if ev(c, 6, n == 5) and (ev(c, 7, b2 > 0) or ev(c, 8, b1 > 0)):
                c.t = c.t * 10 + 9
                c.t = c.t * 10 + 1
    if not ev(c, 2, b2 > 0):
        if b2 > 0 and b1 > 0:
            c.t = c.t * 10 + 3
        c.t = c.t * 10 + 4
        x, c.t = (c.t + 5, c.t * 10 + 5)
    return x


def m4(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0, c.t == 0 and Result() == 0))
    Ensures(Implies(not (b0 > 0) and b1 > 0, c.t == 123 and Result() == 4))
    Ensures(Implies(not (b0 > 0) and not (b1 > 0) and n > 0, c.t == 123 and Result() == 4))
    Ensures(Implies(not (b0 > 0) and not (b1 > 0) and not (n > 0), c.t == 128 and Result() == 29))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b0 > 0) and not (b1 > 0) and n > 0, Result() == 5))
    x = 0
    if not b0 > 0:
        x = num(c, 1, 4) - num(c, 2, x)
        if b1 > 0 or n > 0:
            if ev(c, 3, b0 > 0) and ev(c, 4, n > 0):
                return x
        elif n > 0:
            c.t = c.t * 10 + 7
        else:
            x, c.t = (c.t + 8, c.t * 10 + 8)
            x = x + 9
    return x


def m5(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0 and b0 > 0 and n == 5, c.t == 1346 and Result() == 7))
    Ensures(Implies(b2 > 0 and b0 > 0 and not (n == 5), c.t == 1345 and Result() == 0))
    Ensures(Implies(b2 > 0 and not (b0 > 0) and b1 > 0, c.t == 13892 and Result() == 3))
    Ensures(Implies(b2 > 0 and not (b0 > 0) and not (b1 > 0), c.t == 13892 and Result() == 7))
    Ensures(Implies(not (b2 > 0) and n == 5 and b0 > 0, c.t == 2346 and Result() == 7))
    Ensures(Implies(not (b2 > 0) and n == 5 and not (b0 > 0) and b1 > 0, c.t == 23892 and Result() == 3))
    Ensures(Implies(not (b2 > 0) and n == 5 and not (b0 > 0) and not (b1 > 0), c.t == 23892 and Result() == 7))
    Ensures(Implies(not (b2 > 0) and not (n == 5), c.t == 2 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b2 > 0) and n == 5 and b0 > 0, Result() == 8))
    x = 0
    if ev(c, 1, b2 > 0) if b2 > 0 else ev(c, 2, n == 5):
        if ev(c, 3, b0 > 0) and ev(c, 4, b0 > 0):
            if not n == 5:
                c.t = c.t * 10 + 5
            else:
                c.t = c.t * 10 + 6
                return 7
        else:
            if ev(c, 8, b0 > 0) or ev(c, 9, b0 > 0):
                c.t = c.t * 10 + 1
            else:
                c.t = c.t * 10 + 2
                x = x + 3
            if b1 > 0:
                return x
            else:
                x = x + 6
                return 7
    return x
