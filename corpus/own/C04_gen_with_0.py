from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


class CM:
    def __init__(self, c: Cell, k: int, s: bool) -> None:
        self.c = c
        self.k = k
        self.s = s
        Ensures(Acc(self.c) and self.c is c and Acc(self.k) and self.k == k and Acc(self.s) and self.s == s)

    def __enter__(self) -> int:
        Requires(Acc(self.c) and Acc(self.k) and Acc(self.s) and Acc(self.c.t))
        Ensures(Acc(self.c) and Acc(self.k) and Acc(self.s) and self.c is Old(self.c) and self.k == Old(self.k) and self.s == Old(self.s))
        Ensures(Acc(self.c.t) and self.c.t == Old(self.c.t) * 10 + self.k and Result() == self.k)
        self.c.t = self.c.t * 10 + self.k
        return self.k

    def __exit__(self, t: type, e: Optional[Exception], tb: Optional[object]) -> bool:
        Requires(Acc(self.c) and Acc(self.k) and Acc(self.s) and Acc(self.c.t))
        Ensures(Acc(self.c) and Acc(self.k) and Acc(self.s) and self.c is Old(self.c) and self.k == Old(self.k) and self.s == Old(self.s))
        Ensures(Acc(self.c.t) and self.c.t == Old(self.c.t) * 10 + self.k + 1 and Result() == self.s)
        self.c.t = self.c.t * 10 + self.k + 1
        return self.s


def m0(c: Cell, b0: int, b1: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0, c.t == 15 and Result() == 0))
    Ensures(Implies(not (b0 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b0 > 0, Result() == 1))
    x = 0
    if b0 > 0:
        if b0 > 0:
            c.t = c.t * 10 + 1
        else:
            with CM(c, 5, False) as w1:
                raise E3()
            x = x + 4
        c.t = c.t * 10 + 5
    return x


def m1(c: Cell, b0: int, b1: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0, c.t == 15 and Result() == 0))
    Ensures(Implies(not (b1 > 0) and b0 > 0, c.t == 17167288 and Result() == 0))
    Ensures(Implies(not (b1 > 0) and not (b0 > 0), c.t == 1716728 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b1 > 0) and not (b0 > 0), c.t == 1716729))
    x = 0
    c.t = c.t * 10 + 1
    if b1 > 0:
        if not b1 > 0:
            with CM(c, 5, False) as w1:
                c.t = c.t * 10 + 2
                x = x + 3
                c.t = c.t * 10 + 4
        c.t = c.t * 10 + 5
    else:
        with CM(c, 7, b0 > 0) as w2:
            with CM(c, 1, False) as w1:
                c.t = c.t * 10 + 6
                c.t = c.t * 10 + 7
        if b0 > 0:
            if not b1 > 0:
                c.t = c.t * 10 + 8
    return x


def m2(c: Cell, b0: int, b1: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0, c.t == 3124 and Result() == 4))
    Ensures(Implies(not (b1 > 0), c.t == 3114 and Result() == 32))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b1 > 0), c.t == 3115))
    x = 0
    with CM(c, 3, True) as w3:
        x, c.t = (c.t + 1, c.t * 10 + 1)
        if b1 > 0:
            try:
                c.t = c.t * 10 + 2
                raise E3()
            except E1:
                x = x + 4
                raise E1()
        else:
            if b1 > 0:
                c.t = c.t * 10 + 7
                c.t = c.t * 10 + 8
                c.t = c.t * 10 + 9
            else:
                x, c.t = (c.t + 1, c.t * 10 + 1)
                raise E1()
            try:
                x, c.t = (c.t + 4, c.t * 10 + 4)
            except E2:
                x, c.t = (c.t + 5, c.t * 10 + 5)
                x, c.t = (c.t + 6, c.t * 10 + 6)
            finally:
                x, c.t = (c.t + 7, c.t * 10 + 7)
    return x


def m3(c: Cell, b0: int, b1: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0, c.t == 3 and Result() == 0))
    Ensures(Implies(not (b1 > 0), c.t == 1123 and Result() == 2))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b1 > 0), c.t == 1124))
    x = 0
    if not b1 > 0:
        with CM(c, 1, True) as w2:
            c.t = c.t * 10 + 1
            x = x + 2
    c.t = c.t * 10 + 3
    return x
