from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b1 > 0 and b0 > 0))
    Ensures(not (b1 > 0 and not (b0 > 0)))
    Ensures(Implies(not (b1 > 0), c.t == 1 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b1 > 0), c.t == 2))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b1 > 0 and b0 > 0, c.t == 0 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(b1 > 0 and not (b0 > 0), c.t == 0 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b1 > 0)))
    x = 0
    if not b1 > 0:
        c.t = c.t * 10 + 1
    elif b0 > 0:
        if not b1 > 0:
            raise E2()
        if b1 > 0:
            raise E1()
    else:
        if not b0 > 0:
            raise E2()
        try:
            raise E1()
        except Exception:
            c.t = c.t * 10 + 2
            c.t = c.t * 10 + 3
    return x


def m1(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0, c.t == 13 and Result() == 2))
    Ensures(Implies(not (b1 > 0), c.t == 13 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0, Result() == 3))
    x = 0
    c.t = c.t * 10 + 1
    try:
        if b1 > 0:
            x = x + 2
        c.t = c.t * 10 + 3
    except Exception:
        c.t = c.t * 10 + 4
        if b0 > 0:
            if b0 > 0:
                raise E1()
            if b2 > 0:
                c.t = c.t * 10 + 8
            else:
                raise E1()
    return x


def m2(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b0 > 0))
    Ensures(not (not (b0 > 0) and b2 > 0))
    Ensures(Implies(not (b0 > 0) and not (b2 > 0), c.t == 1345 and Result() == 5))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b0 > 0, c.t == 234 and isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(not (b0 > 0) and b2 > 0, c.t == 1345 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b0 > 0) and not (b2 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(b0 > 0, c.t == 235))
    x = 0
    try:
        try:
            if not b0 > 0:
                c.t = c.t * 10 + 1
            else:
                c.t = c.t * 10 + 2
        finally:
            x = boom(c, 3, b0 > 0)
    finally:
        x = boom(c, 4, b0 > 0)
    x = boom(c, 5, b2 > 0)
    return x


def m3(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b2 > 0 and b1 > 0))
    Ensures(Implies(b2 > 0 and not (b1 > 0), c.t == 3478 and Result() == 0))
    Ensures(Implies(not (b2 > 0), c.t == 0 and Result() == 0))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b2 > 0 and b1 > 0, c.t == 0 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    Exsures(Exception, not (b2 > 0 and not (b1 > 0)))
    Exsures(Exception, not (not (b2 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(b2 > 0 and b1 > 0, isinstance(RaisedException(), E3)))
    x = 0
    if b2 > 0:
        if b1 > 0:
            if b2 > 0:
                raise E1()
        else:
            c.t = c.t * 10 + 3
            try:
                c.t = c.t * 10 + 4
            except Exception as e1:
                return 5
            finally:
                c.t = c.t * 10 + 7
        c.t = c.t * 10 + 8
    return x


def m4(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0, c.t == 2 and Result() == 0))
    Ensures(Implies(not (b2 > 0), c.t == 2 and Result() == 5))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b2 > 0), c.t == 3))
    x = 0
    if b2 > 0:
        try:
            try:
                raise E3()
            except Exception:
                c.t = c.t * 10 + 2
                return x
        except E2 as e2:
            x = x + 4
            try:
                raise E1()
            except E1:
                x = x + 6
        except Exception as e2:
            if not b2 > 0:
                x = x + 1
    else:
        x, c.t = (c.t + 2, c.t * 10 + 2)
    x = x + 3
    return x
