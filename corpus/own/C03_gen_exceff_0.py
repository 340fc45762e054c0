from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0, c.t == 1237 and Result() == 4))
    Ensures(Implies(not (b2 > 0) and n > 0 and b1 > 0, c.t == 12378126 and Result() == 7))
    Ensures(not (not (b2 > 0) and n > 0 and not (b1 > 0)))
    Ensures(Implies(not (b2 > 0) and not (n > 0), c.t == 1237894 and Result() == 133))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, not (b2 > 0))
    Exsures(Exception, not (not (b2 > 0) and n > 0 and b1 > 0))
    Exsures(Exception, Implies(not (b2 > 0) and n > 0 and not (b1 > 0), c.t == 12378123 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b2 > 0) and not (n > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(not (b2 > 0) and n > 0 and not (b1 > 0), c.t == 12378124))
    x = 0
    x = num(c, 1, 4) - num(c, 2, x)
    try:
        if ev(c, 3, b2 > 0):
            return 4
    except E2:
        x = x + 5
        x = x + 6
    finally:
        x, c.t = (c.t + 7, c.t * 10 + 7)
    if ev(c, 8, n > 0) or ev(c, 9, n == 5):
        if ev(c, 1, b1 > 0) == ev(c, 2, b2 > 0):
            c.t = c.t * 10 + 3
            raise E2()
        else:
            c.t = c.t * 10 + 6
            return 7
    else:
        x += num(c, 4, 3)
    return x


def m1(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(n > 0 and b1 > 0, c.t == 1234523 and Result() == -1238))
    Ensures(Implies(n > 0 and not (b1 > 0), c.t == 12323 and Result() == 1))
    Ensures(not (not (n > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(n > 0 and b1 > 0, Result() == -1237))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, not (n > 0 and b1 > 0))
    Exsures(Exception, not (n > 0 and not (b1 > 0)))
    Exsures(Exception, Implies(not (n > 0), c.t == 12 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    x = 0
    if num(c, 1, 0) < num(c, 2, n):
        if ev(c, 3, b1 > 0) and ev(c, 4, n > 0):
            x, c.t = (c.t + 5, c.t * 10 + 5)
    else:
        try:
            raise E2()
        except Exception:
            raise E1()
    x = num(c, 2, 1) - num(c, 3, x)
    return x


def m2(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0 and b1 > 0 and b2 > 0 and n > 0, c.t == 1234 and Result() == 20))
    Ensures(Implies(b0 > 0 and b1 > 0 and b2 > 0 and not (n > 0), c.t == 124 and Result() == 5))
    Ensures(Implies(b0 > 0 and b1 > 0 and not (b2 > 0) and n > 0, c.t == 124 and Result() == 5))
    Ensures(Implies(b0 > 0 and b1 > 0 and not (b2 > 0) and not (n > 0), c.t == 1234 and Result() == 20))
    Ensures(Implies(b0 > 0 and not (b1 > 0) and b2 > 0 and n > 0, c.t == 1234 and Result() == 20))
    Ensures(Implies(b0 > 0 and not (b1 > 0) and b2 > 0 and not (n > 0), c.t == 124 and Result() == 5))
    Ensures(Implies(b0 > 0 and not (b1 > 0) and not (b2 > 0) and n > 0, c.t == 124 and Result() == 5))
    Ensures(Implies(b0 > 0 and not (b1 > 0) and not (b2 > 0) and not (n > 0), c.t == 1234 and Result() == 20))
    Ensures(Implies(not (b0 > 0) and b1 > 0 and b2 > 0 and n > 0, c.t == 1234 and Result() == 20))
    Ensures(Implies(not (b0 > 0) and b1 > 0 and b2 > 0 and not (n > 0), c.t == 124 and Result() == 5))
    Ensures(Implies(not (b0 > 0) and b1 > 0 and not (b2 > 0) and n > 0, c.t == 124 and Result() == 5))
    Ensures(Implies(not (b0 > 0) and b1 > 0 and not (b2 > 0) and not (n > 0), c.t == 1234 and Result() == 20))
    Ensures(Implies(not (b0 > 0) and not (b1 > 0) and b2 > 0 and n > 0, c.t == 1234 and Result() == 20))
    Ensures(Implies(not (b0 > 0) and not (b1 > 0) and b2 > 0 and not (n > 0), c.t == 124 and Result() == 5))
    Ensures(Implies(not (b0 > 0) and not (b1 > 0) and not (b2 > 0) and n > 0, c.t == 124 and Result() == 5))
    Ensures(Implies(not (b0 > 0) and not (b1 > 0) and not (b2 > 0) and not (n > 0), c.t == 1234 and Result() == 20))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b0 > 0) and b1 > 0 and b2 > 0 and not (n > 0), c.t == 125))
    x = 0
    if ev(c, 1, n > 0) == ev(c, 2, b2 > 0):
        x, c.t = (c.t + 3, c.t * 10 + 3)
    try:
        x += num(c, 4, 2)
    except E1:
        x, c.t = (c.t + 5, c.t * 10 + 5)
        try:
            raise E3()
        except E2 as e1:
            x = x + 8
            x = x + 9
            raise E2()
    finally:
        x = x + 3
    return x


def m3(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b0 > 0 and n > 0))
    Ensures(not (b0 > 0 and not (n > 0)))
    Ensures(not (not (b0 > 0) and n > 0))
    Ensures(not (not (b0 > 0) and not (n > 0)))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b0 > 0 and n > 0, c.t == 123678 and isinstance(RaisedException(), E3)))
    Exsures(Exception, Implies(b0 > 0 and not (n > 0), c.t == 14678 and isinstance(RaisedException(), E3)))
    Exsures(Exception, Implies(not (b0 > 0) and n > 0, c.t == 12478 and isinstance(RaisedException(), E3)))
    Exsures(Exception, Implies(not (b0 > 0) and not (n > 0), c.t == 1478 and isinstance(RaisedException(), E3)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(b0 > 0 and n > 0, isinstance(RaisedException(), E1)))
    x = 0
    try:
        if ev(c, 1, n > 0) and ev(c, 2, b0 > 0):
            c.t = c.t * 10 + 3
        else:
            c.t = c.t * 10 + 4
        if not b0 > 0:
            x = x + 5
        else:
            c.t = c.t * 10 + 6
    except E2 as e2:
        try:
            c.t = c.t * 10 + 7
            c.t = c.t * 10 + 8
        except E2:
            x = x + 9
            x = x + 1
            c.t = c.t * 10 + 2
        except Exception:
            raise E1()
        else:
            raise E2()
    finally:
        x = num(c, 7, 1) - num(c, 8, x)
        raise E3()


def m4(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b0 > 0 and b1 > 0 and b2 > 0 and n > 0))
    Ensures(Implies(b0 > 0 and b1 > 0 and b2 > 0 and not (n > 0), c.t == 12 and Result() == 0))
    Ensures(Implies(b0 > 0 and b1 > 0 and not (b2 > 0) and n > 0, c.t == 12 and Result() == 0))
    Ensures(not (b0 > 0 and b1 > 0 and not (b2 > 0) and not (n > 0)))
    Ensures(not (b0 > 0 and not (b1 > 0) and b2 > 0 and n > 0))
    Ensures(Implies(b0 > 0 and not (b1 > 0) and b2 > 0 and not (n > 0), c.t == 12 and Result() == 0))
    Ensures(Implies(b0 > 0 and not (b1 > 0) and not (b2 > 0) and n > 0, c.t == 12 and Result() == 0))
    Ensures(not (b0 > 0 and not (b1 > 0) and not (b2 > 0) and not (n > 0)))
    Ensures(not (not (b0 > 0) and b1 > 0 and b2 > 0 and n > 0))
    Ensures(Implies(not (b0 > 0) and b1 > 0 and b2 > 0 and not (n > 0), c.t == 12 and Result() == 0))
    Ensures(Implies(not (b0 > 0) and b1 > 0 and not (b2 > 0) and n > 0, c.t == 12 and Result() == 0))
    Ensures(not (not (b0 > 0) and b1 > 0 and not (b2 > 0) and not (n > 0)))
    Ensures(not (not (b0 > 0) and not (b1 > 0) and b2 > 0 and n > 0))
    Ensures(Implies(not (b0 > 0) and not (b1 > 0) and b2 > 0 and not (n > 0), c.t == 12 and Result() == 0))
    Ensures(Implies(not (b0 > 0) and not (b1 > 0) and not (b2 > 0) and n > 0, c.t == 12 and Result() == 0))
    Ensures(not (not (b0 > 0) and not (b1 > 0) and not (b2 > 0) and not (n > 0)))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b0 > 0 and b1 > 0 and b2 > 0 and n > 0, c.t == 12 and isinstance(RaisedException(), E3)))
    Exsures(Exception, not (b0 > 0 and b1 > 0 and b2 > 0 and not (n > 0)))
    Exsures(Exception, not (b0 > 0 and b1 > 0 and not (b2 > 0) and n > 0))
    Exsures(Exception, Implies(b0 > 0 and b1 > 0 and not (b2 > 0) and not (n > 0), c.t == 12 and isinstance(RaisedException(), E3)))
    Exsures(Exception, Implies(b0 > 0 and not (b1 > 0) and b2 > 0 and n > 0, c.t == 12 and isinstance(RaisedException(), E3)))
    Exsures(Exception, not (b0 > 0 and not (b1 > 0) and b2 > 0 and not (n > 0)))
    Exsures(Exception, not (b0 > 0 and not (b1 > 0) and not (b2 > 0) and n > 0))
    Exsures(Exception, Implies(b0 > 0 and not (b1 > 0) and not (b2 > 0) and not (n > 0), c.t == 12 and isinstance(RaisedException(), E3)))
    Exsures(Exception, Implies(not (b0 > 0) and b1 > 0 and b2 > 0 and n > 0, c.t == 12 and isinstance(RaisedException(), E3)))
    Exsures(Exception, not (not (b0 > 0) and b1 > 0 and b2 > 0 and not (n > 0)))
    Exsures(Exception, not (not (b0 > 0) and b1 > 0 and not (b2 > 0) and n > 0))
    Exsures(Exception, Implies(not (b0 > 0) and b1 > 0 and not (b2 > 0) and not (n > 0), c.t == 12 and isinstance(RaisedException(), E3)))
    Exsures(Exception, Implies(not (b0 > 0) and not (b1 > 0) and b2 > 0 and n > 0, c.t == 12 and isinstance(RaisedException(), E3)))
    Exsures(Exception, not (not (b0 > 0) and not (b1 > 0) and b2 > 0 and not (n > 0)))
    Exsures(Exception, not (not (b0 > 0) and not (b1 > 0) and not (b2 > 0) and n > 0))
    Exsures(Exception, Implies(not (b0 > 0) and not (b1 > 0) and not (b2 > 0) and not (n > 0), c.t == 12 and isinstance(RaisedException(), E3)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(not (b0 > 0) and b1 > 0 and b2 > 0 and n > 0, c.t == 13))
    x = 0
    if ev(c, 1, b2 > 0) == ev(c, 2, n > 0):
        try:
            raise E1()
        except E2 as e1:
            x = x + 5
            x = x + 6
            raise E1()
        finally:
            raise E3()
    return x
