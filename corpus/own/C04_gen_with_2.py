from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


class CM:
    def __init__(self, c: Cell, k: int, s: bool) -> None:
        self.c = c
        self.k = k
        self.s = s
        Ensures(Acc(self.c) and self.c is c and Acc(self.k) and self.k == k and Acc(self.s) and self.s == s)

    def __enter__(self) -> int:
        Requires(Acc(self.c) and Acc(self.k) and Acc(self.s) and Acc(self.c.t))
        Ensures(Acc(self.c) and Acc(self.k) and Acc(self.s) and self.c is Old(self.c) and self.k == Old(self.k) and self.s == Old(self.s))
        Ensures(Acc(self.c.t) and self.c.t == Old(self.c.t) * 10 + self.k and Result() == self.k)
        self.c.t = self.c.t * 10 + self.k
        return self.k

    def __exit__(self, t: type, e: Optional[Exception], tb: Optional[object]) -> bool:
        Requires(Acc(self.c) and Acc(self.k) and Acc(self.s) and Acc(self.c.t))
        Ensures(Acc(self.c) and Acc(self.k) and Acc(self.s) and self.c is Old(self.c) and self.k == Old(self.k) and self.s == Old(self.s))
        Ensures(Acc(self.c.t) and self.c.t == Old(self.c.t) * 10 + self.k + 1 and Result() == self.s)
        self.c.t = self.c.t * 10 + self.k + 1
        return self.s


def m0(c: Cell, b0: int, b1: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0, c.t == 374 and Result() == 1))
    Ensures(Implies(not (b0 > 0), c.t == 34 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b0 > 0, c.t == 375))
    x = 0
    with CM(c, 3, True) as w3:
        if b0 > 0:
            try:
                x = x + 1
            except E2:
                c.t = c.t * 10 + 2
                x = x + 3
                x = x + 4
            except E1:
                x, c.t = (c.t + 5, c.t * 10 + 5)
                raise E3()
            finally:
                c.t = c.t * 10 + 7
    return x


def m1(c: Cell, b0: int, b1: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0, c.t == 5126 and Result() == 9))
    Ensures(Implies(not (b0 > 0), c.t == 516 and Result() == 9))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b0 > 0, Result() == 10))
    x = 0
    with CM(c, 5, True) as w3:
        c.t = c.t * 10 + 1
        try:
            if b0 > 0:
                c.t = c.t * 10 + 2
        except Exception:
            if b1 > 0:
                c.t = c.t * 10 + 3
                x = boom(c, 4, b0 > 0)
                raise E3()
            else:
                raise E2()
    x = x + 9
    return x


def m2(c: Cell, b0: int, b1: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0 and b0 > 0, c.t == 172 and Result() == 0))
    Ensures(not (b1 > 0 and not (b0 > 0)))
    Ensures(Implies(not (b1 > 0), c.t == 15672 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0 and b0 > 0, Result() == 1))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, not (b1 > 0 and b0 > 0))
    Exsures(Exception, Implies(b1 > 0 and not (b0 > 0), c.t == 172 and isinstance(RaisedException(), E3)))
    Exsures(Exception, not (not (b1 > 0)))
    x = 0
    with CM(c, 1, b0 > 0) as w3:
        try:
            if b1 > 0:
                raise E3()
            if b1 > 0:
                x = boom(c, 4, b0 > 0)
            else:
                c.t = c.t * 10 + 5
                c.t = c.t * 10 + 6
        finally:
            c.t = c.t * 10 + 7
    return x


def m3(c: Cell, b0: int, b1: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b1 > 0))
    Ensures(not (not (b1 > 0) and b0 > 0))
    Ensures(Implies(not (b1 > 0) and not (b0 > 0), c.t == 11323442 and Result() == 4))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b1 > 0, c.t == 11323442 and isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(not (b1 > 0) and b0 > 0, c.t == 11323442 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b1 > 0) and not (b0 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(not (b1 > 0) and b0 > 0, c.t == 11323443))
    x = 0
    x, c.t = (c.t + 1, c.t * 10 + 1)
    with CM(c, 1, False) as w3:
        with CM(c, 3, False) as w2:
            c.t = c.t * 10 + 2
            c.t = c.t * 10 + 3
            try:
                x = boom(c, 4, b1 > 0)
            except E3:
                return 5
        if b1 > 0 or b0 > 0:
            try:
                raise E1()
            except Exception:
                raise E1()
        if b0 > 0:
            try:
                c.t = c.t * 10 + 3
            finally:
                c.t = c.t * 10 + 4
            if b1 > 0:
                c.t = c.t * 10 + 5
                c.t = c.t * 10 + 6
    return x
