from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b2 > 0 and b1 > 0 and b0 > 0))
    Ensures(not (b2 > 0 and b1 > 0 and not (b0 > 0)))
    Ensures(not (b2 > 0 and not (b1 > 0)))
    Ensures(not (not (b2 > 0)))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b2 > 0 and b1 > 0 and b0 > 0, c.t == 31 and isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(b2 > 0 and b1 > 0 and not (b0 > 0), c.t == 378 and isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(b2 > 0 and not (b1 > 0), c.t == 478 and isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(not (b2 > 0), c.t == 0 and isinstance(RaisedException(), E2)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(b2 > 0 and b1 > 0 and b0 > 0, c.t == 32))
    x = 0
    try:
        if not b2 > 0:
            return 1
        if ev(c, 3, b0 > 0) if b1 > 0 else ev(c, 4, b1 > 0):
            raise E2()
        else:
            x = x + 6
            c.t = c.t * 10 + 7
            c.t = c.t * 10 + 8
    except Exception:
        if b0 > 0 and b1 > 0:
            x = x + 9
            x, c.t = (c.t + 1, c.t * 10 + 1)
    else:
        x = x + 2
    finally:
        raise E2()


def m1(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (n > 0))
    Ensures(Implies(not (n > 0) and b0 > 0, c.t == 893 and Result() == 4))
    Ensures(Implies(not (n > 0) and not (b0 > 0), c.t == 891 and Result() == 7))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (n > 0) and b0 > 0, Result() == 5))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(n > 0, c.t == 12 and isinstance(RaisedException(), E3)))
    Exsures(Exception, not (not (n > 0) and b0 > 0))
    Exsures(Exception, not (not (n > 0) and not (b0 > 0)))
    x = 0
    if n > 0:
        if num(c, 1, 0) < num(c, 2, n):
            raise E3()
        else:
            c.t = c.t * 10 + 5
            return x
    if ev(c, 8, b0 > 0) == ev(c, 9, n > 0):
        x += num(c, 1, 3)
    elif n == 5 and b1 > 0:
        x, c.t = (c.t + 2, c.t * 10 + 2)
    else:
        c.t = c.t * 10 + 3
    x = x + 4
    return x


def m2(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0 and n == 5, c.t == 1247891 and Result() == 6))
    Ensures(Implies(b1 > 0 and not (n == 5), c.t == 191 and Result() == 3))
    Ensures(Implies(not (b1 > 0) and b2 > 0 and n == 5, c.t == 123478491 and Result() == 6))
    Ensures(Implies(not (b1 > 0) and b2 > 0 and not (n == 5), c.t == 1491 and Result() == 3))
    Ensures(not (not (b1 > 0) and not (b2 > 0) and n == 5))
    Ensures(Implies(not (b1 > 0) and not (b2 > 0) and not (n == 5), c.t == 14 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b1 > 0) and not (b2 > 0) and not (n == 5), c.t == 15))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, not (b1 > 0 and n == 5))
    Exsures(Exception, not (b1 > 0 and not (n == 5)))
    Exsures(Exception, not (not (b1 > 0) and b2 > 0 and n == 5))
    Exsures(Exception, not (not (b1 > 0) and b2 > 0 and not (n == 5)))
    Exsures(Exception, Implies(not (b1 > 0) and not (b2 > 0) and n == 5, c.t == 1235 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b1 > 0) and not (b2 > 0) and not (n == 5)))
    x = 0
    if ev(c, 1, n == 5):
        if ev(c, 2, b1 > 0) or ev(c, 3, b2 > 0):
            x += num(c, 4, 0)
        else:
            x = boom(c, 5, b1 > 0)
            raise E1()
        try:
            x += num(c, 7, 0)
            c.t = c.t * 10 + 8
        except E3:
            return x
        else:
            x = x + 3
    if not b1 > 0:
        if not ev(c, 4, b2 > 0):
            return x
    try:
        c.t = c.t * 10 + 9
    finally:
        x += num(c, 1, 3)
    return x


def m3(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0, c.t == 3 and Result() == 13))
    Ensures(not (not (b0 > 0) and b1 > 0))
    Ensures(not (not (b0 > 0) and not (b1 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b0 > 0, c.t == 4))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, not (b0 > 0))
    Exsures(Exception, Implies(not (b0 > 0) and b1 > 0, c.t == 149 and isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(not (b0 > 0) and not (b1 > 0), c.t == 14 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    x = 0
    if not b0 > 0:
        try:
            c.t = c.t * 10 + 1
        except E2 as e1:
            x = x + 2
            return x
        if not ev(c, 4, b1 > 0):
            raise E1()
        else:
            x += num(c, 9, 4)
            raise E2()
    else:
        try:
            x = x + 2
            c.t = c.t * 10 + 3
        except E2:
            return 4
        finally:
            x = x + 5
        try:
            x = x + 6
        except Exception:
            x, c.t = (c.t + 7, c.t * 10 + 7)
            raise E3()
    return x


def m4(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b2 > 0 and n > 0))
    Ensures(Implies(b2 > 0 and not (n > 0), c.t == 112 and Result() == 0))
    Ensures(not (not (b2 > 0)))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b2 > 0 and n > 0, c.t == 112358 and isinstance(RaisedException(), E3)))
    Exsures(Exception, not (b2 > 0 and not (n > 0)))
    Exsures(Exception, Implies(not (b2 > 0), c.t == 15 and isinstance(RaisedException(), E3)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(not (b2 > 0), c.t == 16))
    x = 0
    if not ev(c, 1, b2 > 0):
        try:
            raise E3()
        finally:
            c.t = c.t * 10 + 5
    if num(c, 1, 0) < num(c, 2, n):
        if ev(c, 3, b2 > 0) or ev(c, 4, b1 > 0):
            x, c.t = (c.t + 5, c.t * 10 + 5)
            x = x + 6
        try:
            raise E3()
        finally:
            c.t = c.t * 10 + 8
    return x
