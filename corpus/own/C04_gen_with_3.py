from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


class CM:
    def __init__(self, c: Cell, k: int, s: bool) -> None:
        self.c = c
        self.k = k
        self.s = s
        Ensures(Acc(self.c) and self.c is c and Acc(self.k) and self.k == k and Acc(self.s) and self.s == s)

    def __enter__(self) -> int:
        Requires(Acc(self.c) and Acc(self.k) and Acc(self.s) and Acc(self.c.t))
        Ensures(Acc(self.c) and Acc(self.k) and Acc(self.s) and self.c is Old(self.c) and self.k == Old(self.k) and self.s == Old(self.s))
        Ensures(Acc(self.c.t) and self.c.t == Old(self.c.t) * 10 + self.k and Result() == self.k)
        self.c.t = self.c.t * 10 + self.k
        return self.k

    def __exit__(self, t: type, e: Optional[Exception], tb: Optional[object]) -> bool:
        Requires(Acc(self.c) and Acc(self.k) and Acc(self.s) and Acc(self.c.t))
        Ensures(Acc(self.c) and Acc(self.k) and Acc(self.s) and self.c is Old(self.c) and self.k == Old(self.k) and self.s == Old(self.s))
        Ensures(Acc(self.c.t) and self.c.t == Old(self.c.t) * 10 + self.k + 1 and Result() == self.s)
        self.c.t = self.c.t * 10 + self.k + 1
        return self.s


def m0(c: Cell, b0: int, b1: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b0 > 0 and b1 > 0))
    Ensures(not (b0 > 0 and not (b1 > 0)))
    Ensures(Implies(not (b0 > 0), c.t == 3849 and Result() == 0))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b0 > 0 and b1 > 0, c.t == 12367 and isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(b0 > 0 and not (b1 > 0), c.t == 156 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b0 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(b0 > 0 and not (b1 > 0), c.t == 157))
    x = 0
    if b0 > 0:
        try:
            c.t = c.t * 10 + 1
            if b1 > 0:
                c.t = c.t * 10 + 2
                c.t = c.t * 10 + 3
                raise E1()
            with CM(c, 5, True) as w1:
                return 5
        except Exception as e2:
            try:
                c.t = c.t * 10 + 6
            finally:
                c.t = c.t * 10 + 7
        finally:
            raise E2()
    with CM(c, 3, True) as w3:
        c.t = c.t * 10 + 8
    c.t = c.t * 10 + 9
    return x


def m1(c: Cell, b0: int, b1: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0, c.t == 1 and Result() == 0))
    Ensures(Implies(not (b1 > 0), c.t == 256 and Result() == 5))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0, Result() == 1))
    x = 0
    if b1 > 0:
        c.t = c.t * 10 + 1
    else:
        c.t = c.t * 10 + 2
        with CM(c, 5, False) as w2:
            if b1 > 0:
                return x
            else:
                return 5
    return x


def m2(c: Cell, b0: int, b1: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0 and b1 > 0, c.t == 56 and Result() == 1))
    Ensures(Implies(b0 > 0 and not (b1 > 0), c.t == 5 and Result() == 4))
    Ensures(Implies(not (b0 > 0), c.t == 78 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b0 > 0 and b1 > 0, c.t == 57))
    x = 0
    if b0 > 0:
        if b1 > 0:
            with CM(c, 5, False) as w1:
                x = x + 1
                return x
        else:
            try:
                return 4
            finally:
                c.t = c.t * 10 + 5
    else:
        with CM(c, 7, True) as w2:
            try:
                return x
            except E2:
                c.t = c.t * 10 + 8
                raise E2()
            except E1:
                c.t = c.t * 10 + 2
                return x
    return x


def m3(c: Cell, b0: int, b1: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0, c.t == 0 and Result() == 0))
    Ensures(Implies(not (b0 > 0) and b1 > 0, c.t == 315435764 and Result() == 4))
    Ensures(not (not (b0 > 0) and not (b1 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b0 > 0) and b1 > 0, c.t == 315435765))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, not (b0 > 0))
    Exsures(Exception, not (not (b0 > 0) and b1 > 0))
    Exsures(Exception, Implies(not (b0 > 0) and not (b1 > 0), c.t == 324 and isinstance(RaisedException(), E2)))
    x = 0
    if not b0 > 0:
        with CM(c, 3, b0 > 0) as w2:
            if b1 > 0:
                x, c.t = (c.t + 1, c.t * 10 + 1)
            else:
                c.t = c.t * 10 + 2
                raise E2()
            try:
                c.t = c.t * 10 + 5
            except E1:
                raise E1()
        with CM(c, 3, b0 > 0) as w2:
            with CM(c, 5, True) as w1:
                c.t = c.t * 10 + 7
                raise E1()
    return x
