from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b1 > 0))
    Ensures(Implies(not (b1 > 0) and b2 > 0, c.t == 123 and Result() == 1))
    Ensures(Implies(not (b1 > 0) and not (b2 > 0), c.t == 23 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b1 > 0) and not (b2 > 0), c.t == 24))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b1 > 0, c.t == 1 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b1 > 0) and b2 > 0))
    Exsures(Exception, not (not (b1 > 0) and not (b2 > 0)))
    x = 0
    if b1 > 0 or b2 > 0:
        x = boom(c, 1, b1 > 0)
    try:
        c.t = c.t * 10 + 2
    finally:
        c.t = c.t * 10 + 3
    return x


def m1(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0, c.t == 4 and Result() == 0))
    Ensures(not (not (b1 > 0)))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, not (b1 > 0))
    Exsures(Exception, Implies(not (b1 > 0), c.t == 6 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(not (b1 > 0), c.t == 7))
    x = 0
    if b1 > 0:
        try:
            if b0 > 0:
                return x
        finally:
            c.t = c.t * 10 + 4
    else:
        x = x + 5
        try:
            c.t = c.t * 10 + 6
        finally:
            raise E1()
    return x


def m2(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b2 > 0))
    Ensures(not (not (b2 > 0) and b1 > 0))
    Ensures(Implies(not (b2 > 0) and not (b1 > 0), c.t == 6 and Result() == 6))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b2 > 0, c.t == 16 and isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(not (b2 > 0) and b1 > 0, c.t == 6 and isinstance(RaisedException(), E3)))
    Exsures(Exception, not (not (b2 > 0) and not (b1 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(b2 > 0, c.t == 17))
    x = 0
    try:
        if b2 > 0 or b1 > 0:
            if b2 > 0:
                x = boom(c, 1, b2 > 0)
                x = boom(c, 2, b0 > 0)
                x, c.t = (c.t + 3, c.t * 10 + 3)
            else:
                raise E3()
            try:
                x = x + 5
                raise E2()
            except E3:
                x = boom(c, 7, b0 > 0)
                c.t = c.t * 10 + 8
            try:
                c.t = c.t * 10 + 9
                raise E2()
            except E2:
                raise E3()
            except E1:
                raise E3()
    finally:
        x, c.t = (c.t + 6, c.t * 10 + 6)
    return x


def m3(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b0 > 0 and b1 > 0))
    Ensures(Implies(b0 > 0 and not (b1 > 0), c.t == 123434 and Result() == 4))
    Ensures(not (not (b0 > 0) and b1 > 0))
    Ensures(Implies(not (b0 > 0) and not (b1 > 0), c.t == 4 and Result() == 4))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b0 > 0 and b1 > 0, c.t == 123434 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (b0 > 0 and not (b1 > 0)))
    Exsures(Exception, Implies(not (b0 > 0) and b1 > 0, c.t == 4 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b0 > 0) and not (b1 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(not (b0 > 0) and b1 > 0, c.t == 5))
    x = 0
    if b0 > 0 or b0 > 0:
        c.t = c.t * 10 + 1
        try:
            try:
                c.t = c.t * 10 + 2
                c.t = c.t * 10 + 3
                x, c.t = (c.t + 4, c.t * 10 + 4)
            except E2:
                c.t = c.t * 10 + 5
                c.t = c.t * 10 + 6
                x = x + 7
            except E1 as e1:
                x, c.t = (c.t + 8, c.t * 10 + 8)
                c.t = c.t * 10 + 9
                raise E2()
            finally:
                x = x + 2
        finally:
            c.t = c.t * 10 + 3
    x = boom(c, 4, b1 > 0)
    return x


def m4(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0, c.t == 567 and Result() == 0))
    Ensures(Implies(not (b1 > 0) and b0 > 0, c.t == 0 and Result() == 0))
    Ensures(Implies(not (b1 > 0) and not (b0 > 0), c.t == 0 and Result() == 1))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0, c.t == 568))
    x = 0
    if not b1 > 0:
        if not b0 > 0:
            try:
                return 1
            except Exception:
                c.t = c.t * 10 + 2
                raise E3()
            finally:
                x = x + 4
    elif b1 > 0:
        try:
            c.t = c.t * 10 + 5
            c.t = c.t * 10 + 6
            c.t = c.t * 10 + 7
        except E2 as e1:
            c.t = c.t * 10 + 8
            raise E2()
        except Exception:
            x = boom(c, 2, b2 > 0)
            raise E1()
    return x
