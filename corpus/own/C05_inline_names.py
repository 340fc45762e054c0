from nagini_contracts.contracts import *
from typing import Optional


class MyE(Exception):
    pass


class A:
    pass


class Ctx:
    def __init__(self) -> None:
        self.v = 0  # type: int
        Ensures(Acc(self.v))

    def __enter__(self) -> 'Ctx':
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and Result() is self)
        return self

    def __exit__(self, t: type, e: Optional[Exception], tb: object) -> None:
        Requires(Acc(self.v))
        Ensures(Acc(self.v))
        pass


def raiser(b: bool) -> None:
    Ensures(not b)
    Exsures(MyE, b)
    if b:
        raise MyE()


@Inline
def m_match(o: object) -> int:
    match o:
        case A() as w:
            return 1
        case _:
            return 0


@Inline
def m_with(c: Ctx) -> int:
    with c as w:
        return 1
    return 0


class Counter:
    def __init__(self) -> None:
        self.v = 0  # type: int
        Ensures(Acc(self.v))

    def __enter__(self) -> 'Counter':
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == Old(self.v) and Result() is self)
        return self

    def __exit__(self, t: type, e: Optional[Exception], tb: object) -> None:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == Old(self.v) + 1)
        self.v += 1


@Inline
def m_count(c: Counter) -> None:
    with c as w:
        pass


@Inline
def m_try(b: bool) -> object:
    w = None  # type: object
    try:
        raiser(b)
    except MyE as e:
        w = e
    return w


def use_match(o: object) -> object:
    w = A()  # type: object
    v = w
    m_match(o)
    Assert(w is v)
    return w


def use_match_bad(a: A) -> object:
    w = A()  # type: object
    v = w
    m_match(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(w is a)
    return w


def use_with(c: Ctx) -> object:
    Requires(Acc(c.v))
    w = A()  # type: object
    v = w
    m_with(c)
    Assert(w is v)
    return w


def use_try(b: bool) -> None:
    r = m_try(b)
    Assert(Implies(not b, r is None))
    Assert(Implies(b, isinstance(r, MyE)))


def with_two(c: Counter, d: Counter) -> None:
    Requires(Acc(c.v) and Acc(d.v))
    m_count(c)
    m_count(d)
    m_count(d)
    Assert(c.v == Old(c.v) + 1)
    Assert(d.v == Old(d.v) + 2)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(d.v == Old(d.v) + 1)
