from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0 and b0 > 0, c.t == 12341 and Result() == 5))
    Ensures(Implies(b1 > 0 and not (b0 > 0) and b2 > 0, c.t == 12341 and Result() == 5))
    Ensures(Implies(b1 > 0 and not (b0 > 0) and not (b2 > 0), c.t == 121 and Result() == 0))
    Ensures(Implies(not (b1 > 0), c.t == 11 and Result() == 1))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0 and not (b0 > 0) and b2 > 0, c.t == 12342))
    x = 0
    try:
        x = boom(c, 1, b1 > 0)
    except E1:
        c.t = c.t * 10 + 2
        if b0 > 0 or b2 > 0:
            try:
                c.t = c.t * 10 + 3
                c.t = c.t * 10 + 4
                return 5
            except E2:
                x = boom(c, 6, b1 > 0)
                c.t = c.t * 10 + 7
    finally:
        c.t = c.t * 10 + 1
    return x


def m1(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b1 > 0))
    Ensures(Implies(not (b1 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b1 > 0), Result() == 1))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b1 > 0, c.t == 172 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b1 > 0)))
    x = 0
    if b1 > 0:
        try:
            c.t = c.t * 10 + 1
            x = x + 2
        except E3 as e2:
            try:
                return 3
            except Exception:
                raise E2()
        else:
            try:
                c.t = c.t * 10 + 7
                x = x + 8
            except Exception:
                x = x + 9
                c.t = c.t * 10 + 1
            x, c.t = (c.t + 2, c.t * 10 + 2)
            if b1 > 0:
                raise E1()
            else:
                c.t = c.t * 10 + 6
                return x
        finally:
            x = x + 9
    return x


def m2(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0, c.t == 61 and Result() == 0))
    Ensures(Implies(not (b2 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b2 > 0), c.t == 1))
    x = 0
    if b2 > 0 or b2 > 0:
        try:
            try:
                raise E1()
            except E2:
                return x
            except Exception:
                c.t = c.t * 10 + 6
                return x
        finally:
            c.t = c.t * 10 + 1
    return x


def m3(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0, c.t == 1 and Result() == 0))
    Ensures(Implies(not (b0 > 0) and b1 > 0, c.t == 1 and Result() == 0))
    Ensures(Implies(not (b0 > 0) and not (b1 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b0 > 0) and not (b1 > 0), Result() == 1))
    x = 0
    try:
        try:
            if b0 > 0 or b1 > 0:
                c.t = c.t * 10 + 1
            try:
                return x
            except E1:
                c.t = c.t * 10 + 4
                raise E1()
        except E2:
            if b1 > 0:
                raise E1()
            else:
                x = x + 8
                c.t = c.t * 10 + 9
            if b2 > 0:
                c.t = c.t * 10 + 1
                raise E3()
            else:
                c.t = c.t * 10 + 4
        c.t = c.t * 10 + 5
        c.t = c.t * 10 + 6
    finally:
        x = x + 7
    return x


def m4(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b2 > 0))
    Ensures(Implies(not (b2 > 0), c.t == 0 and Result() == 0))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b2 > 0, c.t == 6 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b2 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(b2 > 0, isinstance(RaisedException(), E3)))
    x = 0
    if b2 > 0:
        if b2 > 0:
            try:
                raise E1()
            except E3 as e1:
                raise E1()
            finally:
                c.t = c.t * 10 + 6
        x = boom(c, 5, b1 > 0)
    return x
