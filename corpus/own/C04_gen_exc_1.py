from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b1 > 0, c.t == 1 and Result() == 1))
    Ensures(not (not (b1 > 0)))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, not (b1 > 0))
    Exsures(Exception, Implies(not (b1 > 0), c.t == 2 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(not (b1 > 0), isinstance(RaisedException(), E3)))
    x = 0
    if b1 > 0:
        x = x + 1
    else:
        try:
            c.t = c.t * 10 + 2
        except E3 as e2:
            if b2 > 0:
                raise E1()
            else:
                x = x + 6
            if b1 > 0:
                c.t = c.t * 10 + 7
                c.t = c.t * 10 + 8
            else:
                raise E1()
        else:
            if b2 > 0:
                raise E1()
            else:
                raise E1()
    c.t = c.t * 10 + 1
    return x


def m1(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b0 > 0))
    Ensures(Implies(not (b0 > 0), c.t == 1212 and Result() == 0))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b0 > 0, c.t == 1211 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b0 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(b0 > 0, c.t == 1212))
    x = 0
    c.t = c.t * 10 + 1
    try:
        c.t = c.t * 10 + 2
        if b0 > 0:
            try:
                return 3
            except E2:
                return x
            except Exception as e1:
                c.t = c.t * 10 + 5
                return 6
            finally:
                c.t = c.t * 10 + 1
                raise E1()
    finally:
        c.t = c.t * 10 + 1
    c.t = c.t * 10 + 2
    return x


def m2(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b0 > 0, c.t == 0 and Result() == 0))
    Ensures(not (not (b0 > 0) and b1 > 0))
    Ensures(Implies(not (b0 > 0) and not (b1 > 0), c.t == 469 and Result() == 0))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, not (b0 > 0))
    Exsures(Exception, Implies(not (b0 > 0) and b1 > 0, c.t == 1 and isinstance(RaisedException(), E3)))
    Exsures(Exception, not (not (b0 > 0) and not (b1 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(not (b0 > 0) and b1 > 0, c.t == 2))
    x = 0
    if not b0 > 0:
        try:
            if b1 > 0:
                c.t = c.t * 10 + 1
                raise E3()
            else:
                c.t = c.t * 10 + 4
                raise E1()
        except E1:
            try:
                c.t = c.t * 10 + 6
            except E2 as e1:
                c.t = c.t * 10 + 7
                c.t = c.t * 10 + 8
            else:
                c.t = c.t * 10 + 9
                return x
            c.t = c.t * 10 + 2
            if b2 > 0 or b1 > 0:
                raise E2()
            else:
                raise E1()
    return x


def m3(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b2 > 0))
    Ensures(Implies(not (b2 > 0), c.t == 0 and Result() == 0))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b2 > 0, c.t == 12 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b2 > 0)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(b2 > 0, c.t == 13))
    x = 0
    if b2 > 0:
        try:
            x, c.t = (c.t + 1, c.t * 10 + 1)
            try:
                return x
            except E2 as e1:
                c.t = c.t * 10 + 5
                c.t = c.t * 10 + 6
                c.t = c.t * 10 + 7
            except E1:
                x = x + 8
                c.t = c.t * 10 + 9
                c.t = c.t * 10 + 1
            finally:
                raise E2()
        finally:
            x = boom(c, 2, b1 > 0)
    return x


def m4(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b0 > 0))
    Ensures(not (not (b0 > 0)))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b0 > 0, c.t == 127912 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(not (b0 > 0), c.t == 127 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Exsures(Exception, Implies(not (b0 > 0), c.t == 128))
    x = 0
    c.t = c.t * 10 + 1
    try:
        x, c.t = (c.t + 2, c.t * 10 + 2)
    except E2:
        c.t = c.t * 10 + 3
    else:
        try:
            try:
                raise E1()
            except E3:
                c.t = c.t * 10 + 6
            finally:
                c.t = c.t * 10 + 7
        finally:
            x = x + 8
    finally:
        if b0 > 0:
            c.t = c.t * 10 + 9
            c.t = c.t * 10 + 1
            c.t = c.t * 10 + 2
    return x
