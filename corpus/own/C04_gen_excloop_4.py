from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


def m0(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b2 > 0))
    Ensures(Implies(not (b2 > 0), c.t == 1 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b2 > 0), Result() == 1))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b2 > 0, c.t == 1 and isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b2 > 0)))
    x = 0
    try:
        c.t = c.t * 10 + 1
    except E1:
        x = boom(c, 2, b0 > 0)
    k1 = 2
    while k1 > 0:
        Invariant(Acc(c.t) and 0 <= k1 <= 2)
        Invariant(not (k1 == 0 and b2 > 0))
        Invariant(Implies(k1 == 0 and not (b2 > 0), c.t == 1 and x == 0))
        Invariant(not (k1 == 1 and b2 > 0))
        Invariant(Implies(k1 == 1 and not (b2 > 0), c.t == 1 and x == 0))
        Invariant(Implies(k1 == 2, c.t == 1 and x == 0))
        k1 = k1 - 1
        if b2 > 0:
            if b2 > 0:
                x = x + 3
                raise E1()
            c.t = c.t * 10 + 5
        if b2 > 0:
            x, c.t = (c.t + 6, c.t * 10 + 6)
            try:
                raise E3()
            except E1 as e1:
                x = boom(c, 1, b0 > 0)
                c.t = c.t * 10 + 2
    return x


def m1(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(Implies(b2 > 0 and b1 > 0, c.t == 2 and Result() == 1))
    Ensures(Implies(b2 > 0 and not (b1 > 0), c.t == 89 and Result() == 8))
    Ensures(Implies(not (b2 > 0), c.t == 0 and Result() == 0))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(b2 > 0 and not (b1 > 0), Result() == 9))
    x = 0
    if b2 > 0:
        try:
            if b1 > 0:
                x = x + 1
                c.t = c.t * 10 + 2
            else:
                raise E3()
        except E3:
            if b1 > 0:
                x = x + 6
                return 7
            else:
                x, c.t = (c.t + 8, c.t * 10 + 8)
            k1 = 2
            while k1 > 0:
                Invariant(Acc(c.t) and 0 <= k1 <= 2)
                Invariant(not (k1 == 0))
                Invariant(not (k1 == 1))
                Invariant(Implies(k1 == 2, c.t == 8 and x == 8))
                Invariant(not (b1 > 0))
                Invariant(not (not (b1 > 0) and not (b2 > 0)))
                k1 = k1 - 1
                c.t = c.t * 10 + 9
                return x
    return x


def m2(c: Cell, b0: int, b1: int, b2: int) -> int:
    Requires(Acc(c.t) and c.t == 0)
    Ensures(Acc(c.t))
    Ensures(not (b0 > 0))
    Ensures(not (not (b0 > 0) and b1 > 0))
    Ensures(Implies(not (b0 > 0) and not (b1 > 0), c.t == 47 and Result() == 7))
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Implies(not (b0 > 0) and not (b1 > 0), c.t == 48))
    Exsures(Exception, Acc(c.t))
    Exsures(Exception, Implies(b0 > 0, c.t == 0 and isinstance(RaisedException(), E2)))
    Exsures(Exception, Implies(not (b0 > 0) and b1 > 0, c.t == 47 and isinstance(RaisedException(), E2)))
    Exsures(Exception, not (not (b0 > 0) and not (b1 > 0)))
    x = 0
    if b0 > 0:
        k1 = 1
        while k1 > 0:
            Invariant(Acc(c.t) and 0 <= k1 <= 1)
            Invariant(not (k1 == 0))
            Invariant(Implies(k1 == 1, c.t == 0 and x == 0))
            Invariant(not (not (b0 > 0)))
            k1 = k1 - 1
            k2 = 1
            while k2 > 0:
                Invariant(Acc(c.t) and 0 <= k2 <= 1)
                Invariant(not (k1 == 0 and k2 == 0))
                Invariant(Implies(k1 == 0 and k2 == 1, c.t == 0 and x == 0))
                Invariant(not (k1 == 0 and not (b0 > 0)))
                k2 = k2 - 1
                raise E2()
    else:
        x = x + 3
    k3 = 1
    while k3 > 0:
        Invariant(Acc(c.t) and 0 <= k3 <= 1)
        Invariant(not (k3 == 0 and b1 > 0))
        Invariant(Implies(k3 == 0 and not (b1 > 0), c.t == 47 and x == 7))
        Invariant(Implies(k3 == 1, c.t == 0 and x == 3))
        Invariant(not (b0 > 0))
        k3 = k3 - 1
        try:
            try:
                c.t = c.t * 10 + 4
            except Exception:
                raise E3()
        finally:
            x = boom(c, 7, b1 > 0)
    return x
