from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0, c.t == 15 and Result() == 6))
    Ensures(Implies(not (b2 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b2 > 0), c.t == 1))
    x = 0
    if b2 > 0:
        c.t = c.t * 10 + 1
        if b2 > 0:
            try:
                raise E1()
            except E2:
                raise E1()
            except Exception:
                c.t = c.t * 10 + 5
                x = x + 6
        else:
            try:
                return x
            except E2:
                raise E1()
            except E1:
                c.t = c.t * 10 + 1
    return x


def m1(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b0 > 0 and b1 > 0))
    Ensures(not (b0 > 0 and not (b1 > 0)))
    Ensures(Implies(not (b0 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b0 > 0), Result() == 1))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b0 > 0 and b1 > 0, c.t == 0 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(b0 > 0 and not (b1 > 0), c.t == 23 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b0 > 0)))
    x = 0
    if b0 > 0:
        if b0 > 0:
            if b1 > 0:
                raise E1()
            try:
                c.t = c.t * 10 + 2
                c.t = c.t * 10 + 3
            except E2 as e1:
                c.t = c.t * 10 + 4
                c.t = c.t * 10 + 5
            except Exception as e1:
                c.t = c.t * 10 + 6
            else:
                raise E1()
        elif b0 > 0 or b2 > 0:
            c.t = c.t * 10 + 9
            x = x + 1
    return x


def m2(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0 and b2 > 0, c.t == 234 and Result() == 6))
    Ensures(Implies(b0 > 0 and not (b2 > 0), c.t == 4 and Result() == 5))
    Ensures(Implies(not (b0 > 0), c.t == 7 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b0 > 0 and not (b2 > 0), c.t == 5))
    x = 0
    if b0 > 0:
        if b2 > 0:
            x = x + 1
            try:
                c.t = c.t * 10 + 2
            finally:
                c.t = c.t * 10 + 3
        if b0 > 0:
            c.t = c.t * 10 + 4
            if b0 > 0:
                x = x + 5
        else:
            c.t = c.t * 10 + 6
    else:
        c.t = c.t * 10 + 7
    return x


def m3(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b1 > 0))
    Ensures(not (not (b1 > 0)))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b1 > 0, c.t == 3 and isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(not (b1 > 0), c.t == 3 and isinstance(RaisedException(), E3)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(b1 > 0, isinstance(RaisedException(), E3)))
    x = 0
    try:
        x = x + 1
    except Exception:
        c.t = c.t * 10 + 2
    finally:
        x = boom(c, 3, b1 > 0)
        try:
            raise E3()
        except E2:
            x, c.t = (c.t + 4, c.t * 10 + 4)
            raise E1()
        except E1:
            x = x + 5
            raise E1()


def m4(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0, c.t == 9 and Result() == 9))
    Ensures(not (not (b0 > 0)))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, not (b0 > 0))
    Exsures(Exception, Implies(not (b0 > 0), c.t == 1569 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(not (b0 > 0), c.t == 1570))
    x = 0
    try:
        if not b0 > 0:
            try:
                c.t = c.t * 10 + 1
                raise E1()
            except E2:
                c.t = c.t * 10 + 4
            except Exception:
                c.t = c.t * 10 + 5
                x, c.t = (c.t + 6, c.t * 10 + 6)
            finally:
                raise E1()
    finally:
        x, c.t = (c.t + 9, c.t * 10 + 9)
    return x
