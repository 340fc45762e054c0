from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0 and b0 > 0 and n > 0, c.t == 145 and Result() == 1))
    Ensures(not (b2 > 0 and b0 > 0 and not (n > 0)))
    Ensures(not (b2 > 0 and not (b0 > 0) and n > 0))
    Ensures(Implies(b2 > 0 and not (b0 > 0) and not (n > 0), c.t == 145 and Result() == 1))
    Ensures(not (not (b2 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b2 > 0 and not (b0 > 0) and not (n > 0), c.t == 146))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, not (b2 > 0 and b0 > 0 and n > 0))
    Exsures(Exception, Implies(b2 > 0 and b0 > 0 and not (n > 0), c.t == 145 and isinstance(RaisedException(), E3)))
    Exsures(Exception, Implies(b2 > 0 and not (b0 > 0) and n > 0, c.t == 145 and isinstance(RaisedException(), E3)))
    Exsures(Exception, not (b2 > 0 and not (b0 > 0) and not (n > 0)))
    Exsures(Exception, Implies(not (b2 > 0), c.t == 13 and isinstance(RaisedException(), E2)))
    x = 0
    x, c.t = (c.t + 1, c.t * 10 + 1)
    if not b2 > 0:
        try:
            raise E2()
        finally:
            c.t = c.t * 10 + 3
    elif ev(c, 4, n > 0) == ev(c, 5, b0 > 0):
        return x
    else:
        raise E3()


def m1(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b1 > 0 and n > 0 and b0 > 0))
    Ensures(not (b1 > 0 and n > 0 and not (b0 > 0) and b2 > 0))
    Ensures(Implies(b1 > 0 and n > 0 and not (b0 > 0) and not (b2 > 0), c.t == 12345782 and Result() == 2))
    Ensures(not (b1 > 0 and not (n > 0) and b0 > 0))
    Ensures(not (b1 > 0 and not (n > 0) and not (b0 > 0) and b2 > 0))
    Ensures(Implies(b1 > 0 and not (n > 0) and not (b0 > 0) and not (b2 > 0), c.t == 1282 and Result() == 2))
    Ensures(not (not (b1 > 0) and b0 > 0))
    Ensures(not (not (b1 > 0) and not (b0 > 0) and b2 > 0))
    Ensures(Implies(not (b1 > 0) and not (b0 > 0) and not (b2 > 0), c.t == 182 and Result() == 2))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b1 > 0 and n > 0 and b0 > 0, c.t == 12347 and isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(b1 > 0 and n > 0 and not (b0 > 0) and b2 > 0, c.t == 12345782 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (b1 > 0 and n > 0 and not (b0 > 0) and not (b2 > 0)))
    Exsures(Exception, Implies(b1 > 0 and not (n > 0) and b0 > 0, c.t == 1282 and isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(b1 > 0 and not (n > 0) and not (b0 > 0) and b2 > 0, c.t == 1282 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (b1 > 0 and not (n > 0) and not (b0 > 0) and not (b2 > 0)))
    Exsures(Exception, Implies(not (b1 > 0) and b0 > 0, c.t == 182 and isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(not (b1 > 0) and not (b0 > 0) and b2 > 0, c.t == 182 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b1 > 0) and not (b0 > 0) and not (b2 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(b1 > 0 and n > 0 and not (b0 > 0) and b2 > 0, c.t == 12345783))
    x = 0
    if ev(c, 1, b1 > 0) and ev(c, 2, n > 0):
        c.t = c.t * 10 + 3
        try:
            x = boom(c, 4, b0 > 0)
            x += num(c, 5, 4)
        except E3:
            x = x + 6
        finally:
            c.t = c.t * 10 + 7
    try:
        if ev(c, 8, b2 > 0):
            raise E2()
    finally:
        x = boom(c, 2, b0 > 0)
    return x


def m2(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (n > 0))
    Ensures(not (not (n > 0) and b0 > 0 and b2 > 0))
    Ensures(Implies(not (n > 0) and b0 > 0 and not (b2 > 0), c.t == 125612 and Result() == 1))
    Ensures(Implies(not (n > 0) and not (b0 > 0), c.t == 15612 and Result() == 1))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (n > 0) and not (b0 > 0), c.t == 15613))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(n > 0, c.t == 0 and isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(not (n > 0) and b0 > 0 and b2 > 0, c.t == 12 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (n > 0) and b0 > 0 and not (b2 > 0)))
    Exsures(Exception, not (not (n > 0) and not (b0 > 0)))
    x = 0
    if not n > 0:
        if ev(c, 1, b0 > 0) and ev(c, 2, b2 > 0):
            raise E1()
        else:
            c.t = c.t * 10 + 5
        if ev(c, 6, n == 5) and (ev(c, 7, n > 0) or ev(c, 8, b0 > 0)):
            c.t = c.t * 10 + 9
        else:
            x = boom(c, 1, n == 5)
            c.t = c.t * 10 + 2
    elif n > 0:
        raise E2()
    else:
        x = num(c, 4, 3) - num(c, 5, x)
        raise E1()
    return x


def m3(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0 and n > 0, c.t == 1912 and Result() == 11))
    Ensures(Implies(b0 > 0 and not (n > 0), c.t == 191 and Result() == 11))
    Ensures(Implies(not (b0 > 0) and n > 0, c.t == 191 and Result() == 11))
    Ensures(Implies(not (b0 > 0) and not (n > 0), c.t == 1912 and Result() == 11))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b0 > 0 and n > 0, Result() == 12))
    x = 0
    try:
        try:
            x, c.t = (c.t + 1, c.t * 10 + 1)
            x = x + 2
            raise E1()
        except E2:
            raise E1()
        except E1:
            raise E1()
        finally:
            x = x + 8
    except E1 as e2:
        if ev(c, 9, n > 0) == ev(c, 1, b0 > 0):
            c.t = c.t * 10 + 2
    return x


def m4(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (n > 0))
    Ensures(not (not (n > 0)))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(n > 0, c.t == 0 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(not (n > 0), c.t == 6 and isinstance(RaisedException(), E2)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(not (n > 0), isinstance(RaisedException(), E3)))
    x = 0
    try:
        if n > 0:
            raise E1()
    except E2:
        if b1 > 0:
            x = x + 3
            x = boom(c, 4, b1 > 0)
            x += num(c, 5, 3)
        if ev(c, 6, n > 0) == ev(c, 7, b0 > 0):
            x = num(c, 8, 1) - num(c, 9, x)
            raise E3()
        else:
            x = num(c, 2, 0) - num(c, 3, x)
        x = num(c, 4, 3) - num(c, 5, x)
    else:
        x = boom(c, 6, b2 > 0)
        try:
            raise E2()
        finally:
            x = x + 1
    return x
