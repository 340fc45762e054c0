from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0 and b1 > 0, c.t == 1235 and Result() == 0))
    Ensures(Implies(b2 > 0 and not (b1 > 0), c.t == 1234145 and Result() == 12345))
    Ensures(Implies(not (b2 > 0), c.t == 1 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b2 > 0), Result() == 1))
    x = 0
    try:
        c.t = c.t * 10 + 1
        if b2 > 0:
            c.t = c.t * 10 + 2
            if b2 > 0:
                x = boom(c, 3, b1 > 0)
                c.t = c.t * 10 + 4
            else:
                return x
            try:
                raise E1()
            except E2:
                x, c.t = (c.t + 8, c.t * 10 + 8)
                raise E1()
            except E1:
                c.t = c.t * 10 + 1
                raise E1()
            finally:
                x, c.t = (c.t + 4, c.t * 10 + 4)
    except Exception as e3:
        c.t = c.t * 10 + 5
    return x


def m1(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0, c.t == 12 and Result() == 3))
    Ensures(Implies(not (b1 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b1 > 0, Result() == 4))
    x = 0
    if b1 > 0:
        try:
            c.t = c.t * 10 + 1
        finally:
            x, c.t = (c.t + 2, c.t * 10 + 2)
    return x


def m2(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b2 > 0))
    Ensures(Implies(not (b2 > 0) and b0 > 0, c.t == 53 and Result() == 6))
    Ensures(not (not (b2 > 0) and not (b0 > 0)))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b2 > 0, c.t == 13 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b2 > 0) and b0 > 0))
    Exsures(Exception, Implies(not (b2 > 0) and not (b0 > 0), c.t == 3 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(b2 > 0, isinstance(RaisedException(), E3)))
    x = 0
    try:
        if b2 > 0:
            x, c.t = (c.t + 1, c.t * 10 + 1)
            if b2 > 0:
                raise E1()
            else:
                x = x + 4
        if b0 > 0:
            if b0 > 0:
                c.t = c.t * 10 + 5
                return 6
        elif b0 > 0:
            c.t = c.t * 10 + 7
            raise E2()
        else:
            raise E1()
    finally:
        c.t = c.t * 10 + 3
    return x


def m3(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0 and b1 > 0, c.t == 11 and Result() == 4))
    Ensures(Implies(b0 > 0 and not (b1 > 0), c.t == 1 and Result() == 0))
    Ensures(Implies(not (b0 > 0), c.t == 1 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b0 > 0), Result() == 1))
    x = 0
    c.t = c.t * 10 + 1
    if b1 > 0 and b0 > 0:
        try:
            try:
                raise E2()
            except E3:
                c.t = c.t * 10 + 3
            finally:
                x = x + 4
            try:
                raise E3()
            except E2:
                x = x + 6
                c.t = c.t * 10 + 7
                c.t = c.t * 10 + 8
            except Exception:
                raise E1()
        except E1:
            c.t = c.t * 10 + 1
        else:
            if b0 > 0:
                return 2
            else:
                c.t = c.t * 10 + 4
                raise E2()
    return x


def m4(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0, c.t == 1 and Result() == 4))
    Ensures(Implies(not (b0 > 0), c.t == 1 and Result() == 1))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b0 > 0, Result() == 5))
    x = 0
    try:
        try:
            x = boom(c, 1, b0 > 0)
            if b0 > 0:
                c.t = c.t * 10 + 2
                x, c.t = (c.t + 3, c.t * 10 + 3)
        except E1:
            try:
                return 4
            except E3:
                c.t = c.t * 10 + 5
            c.t = c.t * 10 + 6
    except E2:
        c.t = c.t * 10 + 7
    return x
