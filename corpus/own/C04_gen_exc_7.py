from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b1 > 0 and b2 > 0))
    Ensures(Implies(b1 > 0 and not (b2 > 0), c.t == 0 and Result() == 5))
    Ensures(Implies(not (b1 > 0), c.t == 0 and Result() == 5))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0 and not (b2 > 0), c.t == 1))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b1 > 0 and b2 > 0, c.t == 126 and isinstance(RaisedException(), E3)))
    Exsures(Exception, not (b1 > 0 and not (b2 > 0)))
    Exsures(Exception, not (not (b1 > 0)))
    x = 0
    if b2 > 0:
        if b1 > 0:
            try:
                c.t = c.t * 10 + 1
                c.t = c.t * 10 + 2
            except E1:
                x, c.t = (c.t + 3, c.t * 10 + 3)
                x = boom(c, 4, b2 > 0)
                raise E3()
            else:
                c.t = c.t * 10 + 6
                return x
            finally:
                raise E3()
    x = x + 5
    return x


def m1(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b1 > 0 and b2 > 0))
    Ensures(not (b1 > 0 and not (b2 > 0)))
    Ensures(Implies(not (b1 > 0), c.t == 1 and Result() == 0))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b1 > 0 and b2 > 0, c.t == 1 and isinstance(RaisedException(), E3)))
    Exsures(Exception, Implies(b1 > 0 and not (b2 > 0), c.t == 18 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b1 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(b1 > 0 and b2 > 0, isinstance(RaisedException(), E1)))
    x = 0
    c.t = c.t * 10 + 1
    if b1 > 0:
        if b2 > 0:
            try:
                return x
            except E3 as e1:
                raise E3()
            finally:
                raise E3()
        else:
            try:
                raise E1()
            except E3:
                raise E1()
            finally:
                c.t = c.t * 10 + 8
    return x


def m2(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0, c.t == 0 and Result() == 0))
    Ensures(Implies(not (b1 > 0) and b2 > 0, c.t == 56 and Result() == 4))
    Ensures(Implies(not (b1 > 0) and not (b2 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b1 > 0) and b2 > 0, Result() == 5))
    x = 0
    if b1 > 0:
        if b2 > 0:
            try:
                return x
            except E1:
                x = x + 3
    if b2 > 0:
        if b2 > 0:
            x = x + 4
            c.t = c.t * 10 + 5
            c.t = c.t * 10 + 6
    return x


def m3(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0, c.t == 125 and Result() == 23))
    Ensures(Implies(not (b2 > 0), c.t == 178 and Result() == 25))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b2 > 0, Result() == 24))
    x = 0
    c.t = c.t * 10 + 1
    if b2 > 0 and b2 > 0:
        if b2 > 0:
            x, c.t = (c.t + 2, c.t * 10 + 2)
            try:
                raise E2()
            except E1:
                x, c.t = (c.t + 5, c.t * 10 + 5)
                x = x + 6
        else:
            try:
                c.t = c.t * 10 + 8
                x = boom(c, 9, b1 > 0)
                return 1
            except E2:
                c.t = c.t * 10 + 2
                c.t = c.t * 10 + 3
            except Exception:
                raise E1()
    else:
        c.t = c.t * 10 + 7
        x, c.t = (c.t + 8, c.t * 10 + 8)
    return x


def m4(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b1 > 0))
    Ensures(Implies(not (b1 > 0), c.t == 12 and Result() == 0))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b1 > 0, c.t == 62 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b1 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(b1 > 0, isinstance(RaisedException(), E3)))
    x = 0
    try:
        if b1 > 0:
            if not b1 > 0:
                raise E1()
            try:
                raise E2()
            finally:
                c.t = c.t * 10 + 6
        c.t = c.t * 10 + 1
    finally:
        c.t = c.t * 10 + 2
    return x
