from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(n > 0, c.t == 1 and Result() == 1))
    Ensures(Implies(not (n > 0) and b1 > 0 and b2 > 0, c.t == 12345 and Result() == 7))
    Ensures(Implies(not (n > 0) and b1 > 0 and not (b2 > 0), c.t == 123456 and Result() == 7))
    Ensures(Implies(not (n > 0) and not (b1 > 0) and b2 > 0, c.t == 122 and Result() == 1))
    Ensures(Implies(not (n > 0) and not (b1 > 0) and not (b2 > 0), c.t == 12 and Result() == 1))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (n > 0) and b1 > 0 and b2 > 0, Result() == 8))
    x = 0
    x, c.t = (c.t + 1, c.t * 10 + 1)
    if not n > 0:
        if ev(c, 2, b1 > 0) and ev(c, 3, b1 > 0):
            if ev(c, 4, b1 > 0) and (ev(c, 5, b2 > 0) or ev(c, 6, b1 > 0)):
                return 7
            else:
                c.t = c.t * 10 + 9
            if b1 > 0 or b1 > 0:
                x = x + 1
        elif b2 > 0:
            c.t = c.t * 10 + 2
    return x


def m1(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0 and b2 > 0 and n == 5, c.t == 123 and Result() == 5))
    Ensures(Implies(b1 > 0 and b2 > 0 and not (n == 5) and b0 > 0, c.t == 1234 and Result() == 5))
    Ensures(Implies(b1 > 0 and b2 > 0 and not (n == 5) and not (b0 > 0), c.t == 1234 and Result() == 0))
    Ensures(Implies(b1 > 0 and not (b2 > 0), c.t == 161 and Result() == 3))
    Ensures(Implies(not (b1 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0 and b2 > 0 and not (n == 5) and not (b0 > 0), Result() == 1))
    x = 0
    if b1 > 0:
        if ev(c, 1, b2 > 0):
            if ev(c, 2, b1 > 0) and (ev(c, 3, n == 5) or ev(c, 4, b0 > 0)):
                x = x + 5
        elif ev(c, 6, b2 > 0) and (ev(c, 7, n > 0) or ev(c, 8, b0 > 0)):
            c.t = c.t * 10 + 9
        else:
            x += num(c, 1, 3)
            return x
    return x


def m2(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(n > 0 and b2 > 0 and n == 5, c.t == 12356 and Result() == 0))
    Ensures(Implies(n > 0 and b2 > 0 and not (n == 5), c.t == 123567 and Result() == 0))
    Ensures(Implies(n > 0 and not (b2 > 0) and b1 > 0, c.t == 12345 and Result() == 1))
    Ensures(Implies(n > 0 and not (b2 > 0) and not (b1 > 0), c.t == 12344 and Result() == 0))
    Ensures(Implies(not (n > 0), c.t == 124 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(n > 0 and b2 > 0 and n == 5, Result() == 1))
    x = 0
    if num(c, 1, 0) < num(c, 2, n):
        if ev(c, 3, b2 > 0) or ev(c, 4, b1 > 0):
            if ev(c, 5, b2 > 0) and (ev(c, 6, n == 5) or ev(c, 7, n > 0)):
                return x
            else:
                return 1
    c.t = c.t * 10 + 4
    return x


def m3(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0, c.t == 1 and Result() == 0))
    Ensures(Implies(not (b0 > 0) and n > 0 and b1 > 0 and n == 5, c.t == 123 and Result() == 0))
    Ensures(Implies(not (b0 > 0) and n > 0 and b1 > 0 and not (n == 5) and b2 > 0, c.t == 123784891 and Result() == -6))
    Ensures(Implies(not (b0 > 0) and n > 0 and b1 > 0 and not (n == 5) and not (b2 > 0), c.t == 123784 and Result() == 9))
    Ensures(Implies(not (b0 > 0) and n > 0 and not (b1 > 0) and n == 5 and b2 > 0, c.t == 123784891 and Result() == -6))
    Ensures(Implies(not (b0 > 0) and n > 0 and not (b1 > 0) and n == 5 and not (b2 > 0), c.t == 123784 and Result() == 9))
    Ensures(Implies(not (b0 > 0) and n > 0 and not (b1 > 0) and not (n == 5), c.t == 123 and Result() == 6))
    Ensures(Implies(not (b0 > 0) and not (n > 0) and b1 > 0, c.t == 12378 and Result() == 1))
    Ensures(Implies(not (b0 > 0) and not (n > 0) and not (b1 > 0), c.t == 123 and Result() == 6))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b0 > 0) and n > 0 and not (b1 > 0) and not (n == 5), c.t == 124))
    x = 0
    if not ev(c, 1, b0 > 0):
        if ev(c, 2, n == 5) == ev(c, 3, b1 > 0):
            if n == 5:
                return x
            else:
                return 6
        else:
            if num(c, 7, 0) < num(c, 8, n):
                x = x + 9
            else:
                return 1
            if not ev(c, 4, b2 > 0):
                return x
        if n > 0:
            if b0 > 0:
                return x
            else:
                c.t = c.t * 10 + 8
                x = num(c, 9, 3) - num(c, 1, x)
                return x
    return x


def m4(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0 and b2 > 0, c.t == 1356 and Result() == 141))
    Ensures(Implies(b1 > 0 and not (b2 > 0) and n == 5, c.t == 123456 and Result() == 12351))
    Ensures(Implies(b1 > 0 and not (b2 > 0) and not (n == 5), c.t == 12 and Result() == 0))
    Ensures(Implies(not (b1 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0 and not (b2 > 0) and n == 5, Result() == 12352))
    x = 0
    if b1 > 0:
        if ev(c, 1, b2 > 0) or ev(c, 2, n == 5):
            if ev(c, 3, b2 > 0) or ev(c, 4, n > 0):
                c.t = c.t * 10 + 5
                x, c.t = (c.t + 6, c.t * 10 + 6)
                return x
            else:
                return 8
    return x


def m5(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(n > 0 and b0 > 0 and b1 > 0 and n == 5, c.t == 1234 and Result() == 5))
    Ensures(Implies(n > 0 and b0 > 0 and b1 > 0 and not (n == 5), c.t == 123467 and Result() == 1240))
    Ensures(Implies(n > 0 and b0 > 0 and not (b1 > 0) and n == 5, c.t == 34 and Result() == 5))
    Ensures(Implies(n > 0 and b0 > 0 and not (b1 > 0) and not (n == 5), c.t == 3467 and Result() == 40))
    Ensures(Implies(n > 0 and not (b0 > 0) and b1 > 0, c.t == 12367 and Result() == 129))
    Ensures(Implies(n > 0 and not (b0 > 0) and not (b1 > 0), c.t == 367 and Result() == 9))
    Ensures(Implies(not (n > 0), c.t == 7 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(n > 0 and not (b0 > 0) and not (b1 > 0), Result() == 10))
    x = 0
    if n > 0:
        if b2 > 0 or b1 > 0:
            if b1 > 0:
                c.t = c.t * 10 + 1
                c.t = c.t * 10 + 2
        if ev(c, 3, b0 > 0) and ev(c, 4, b0 > 0):
            if n == 5:
                return 5
        x, c.t = (c.t + 6, c.t * 10 + 6)
    c.t = c.t * 10 + 7
    return x
