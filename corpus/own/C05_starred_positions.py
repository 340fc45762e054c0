from nagini_contracts.contracts import *
from typing import Tuple


def weigh(a: int, b: int, c: int) -> int:
    Ensures(Result() == a * 100 + b * 10 + c)
    return a * 100 + b * 10 + c


@Pure
def pure_weigh(a: int, b: int, c: int, d: int = 9) -> int:
    return a * 1000 + b * 100 + c * 10 + d


def first(t: Tuple[int, int]) -> int:
    Ensures(Result() == t[0] * 100 + t[1] * 10 + 7)
    return weigh(*t, 7)


def second(t: Tuple[int, int]) -> int:
    Ensures(Result() == 700 + t[0] * 10 + t[1])
    return weigh(7, *t)


def both(t: Tuple[int, int], u: Tuple[int]) -> int:
    Ensures(Result() == t[0] * 100 + t[1] * 10 + u[0])
    return weigh(*t, *u)


def both_rev(t: Tuple[int, int], u: Tuple[int]) -> int:
    Ensures(Result() == u[0] * 100 + t[0] * 10 + t[1])
    return weigh(*u, *t)


def pure_second(t: Tuple[int, int]) -> int:
    Ensures(Result() == 7000 + t[0] * 100 + t[1] * 10 + 9)
    return pure_weigh(7, *t)


def pure_kw(t: Tuple[int, int]) -> int:
    Ensures(Result() == t[0] * 1000 + t[1] * 100 + 43)
    return pure_weigh(*t, d=3, c=4)


def three(t: Tuple[int, int, int], v: int) -> int:
    Ensures(Result() == v * 1000 + t[0] * 100 + t[1] * 10 + t[2])
    return pure_weigh(v, *t)


def three_wrong(t: Tuple[int, int, int], v: int) -> int:
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Result() == v * 1000 + t[2] * 100 + t[1] * 10 + t[0])
    return pure_weigh(v, *t)


def mixed(t: Tuple[int, int], v: int) -> int:
    Ensures(Result() == v * 1000 + t[0] * 100 + t[1] * 10 + v)
    return pure_weigh(v, *t, v)
