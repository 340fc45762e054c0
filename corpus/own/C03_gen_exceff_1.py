from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0 and b2 > 0, c.t == 12 and Result() == 3))
    Ensures(not (b1 > 0 and not (b2 > 0)))
    Ensures(Implies(not (b1 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0 and b2 > 0, c.t == 13))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, not (b1 > 0 and b2 > 0))
    Exsures(Exception, Implies(b1 > 0 and not (b2 > 0), c.t == 12 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b1 > 0)))
    x = 0
    if b1 > 0:
        if ev(c, 1, b1 > 0) and ev(c, 2, b2 > 0):
            return 3
        else:
            raise E1()
    return x


def m1(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0, c.t == 123812 and Result() == 22))
    Ensures(Implies(not (b1 > 0), c.t == 123812 and Result() == 13))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b1 > 0), c.t == 123813))
    x = 0
    try:
        try:
            x += num(c, 1, 0)
            x, c.t = (c.t + 2, c.t * 10 + 2)
            x += num(c, 3, 3)
        except E3 as e1:
            raise E3()
        finally:
            x = x + 7
        if ev(c, 8, b1 > 0):
            x = x + 9
    finally:
        c.t = c.t * 10 + 1
    c.t = c.t * 10 + 2
    return x


def m2(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(n > 0, c.t == 123 and Result() == 4))
    Ensures(not (not (n > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(n > 0, Result() == 5))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, not (n > 0))
    Exsures(Exception, Implies(not (n > 0), c.t == 12 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    x = 0
    if not ev(c, 1, n > 0):
        try:
            c.t = c.t * 10 + 2
            raise E2()
        finally:
            raise E1()
    x = num(c, 2, 4) - num(c, 3, x)
    return x


def m3(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0, c.t == 1278 and Result() == -5))
    Ensures(Implies(not (b0 > 0), c.t == 12378 and Result() == -1))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b0 > 0), c.t == 12379))
    x = 0
    x, c.t = (c.t + 1, c.t * 10 + 1)
    try:
        if not ev(c, 2, b0 > 0):
            c.t = c.t * 10 + 3
        else:
            x = x + 4
    except E2:
        try:
            c.t = c.t * 10 + 5
        except E1:
            raise E1()
        else:
            c.t = c.t * 10 + 7
            x = x + 8
    except Exception:
        if b2 > 0:
            c.t = c.t * 10 + 9
            x, c.t = (c.t + 1, c.t * 10 + 1)
            c.t = c.t * 10 + 2
        try:
            raise E3()
        except Exception as e1:
            raise E1()
    finally:
        x = num(c, 7, 0) - num(c, 8, x)
    return x


def m4(c: Cell, b0: int, b1: int, b2: int, n: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (n == 5))
    Ensures(Implies(not (n == 5) and b1 > 0, c.t == 12345645 and Result() == 1234569))
    Ensures(Implies(not (n == 5) and not (b1 > 0), c.t == 123445 and Result() == 12349))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(n == 5, c.t == 14 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (n == 5) and b1 > 0))
    Exsures(Exception, not (not (n == 5) and not (b1 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(n == 5, c.t == 15))
    x = 0
    try:
        x = boom(c, 1, n == 5)
        x = num(c, 2, 2) - num(c, 3, x)
        if ev(c, 4, b1 > 0):
            x = num(c, 5, 0) - num(c, 6, x)
    except Exception:
        if not n > 0:
            x = x + 7
            c.t = c.t * 10 + 8
        try:
            raise E2()
        except E2:
            raise E1()
        except Exception:
            x = boom(c, 3, n == 5)
    finally:
        c.t = c.t * 10 + 4
    x, c.t = (c.t + 5, c.t * 10 + 5)
    return x
