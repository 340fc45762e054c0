from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: int, b: int) -> None:
    Assert(Implies((a, 1) == (b, 1), a == b))


def c1(a: int, b: int) -> None:
    Assert(Implies(a == b, (a, 1) == (b, 1)))


def c2(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (a, 1) == (b, 1)


def c3(a: int, b: int) -> None:
    assert (1, 'a') == (1, 'a')


def c4(a: int, b: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (1, 'a') == (1, 'b')


def c5(n: int, m: int) -> None:
    Requires(n <= m)
    r = range(n, m)
    assert len(r) == m - n


def c6(n: int, m: int) -> None:
    Requires(n <= m)
    r = range(n, m)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(r) == m


def c7(n: int, m: int) -> None:
    Requires(n <= m)
    r = range(n, m)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert n in r


def c8(n: int, m: int) -> None:
    Requires(n <= m)
    r = range(n, m)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(n < m, m in r))


def c9(n: int, m: int) -> None:
    Requires(n <= m)
    r = range(n, m)
    assert m not in r


def c10(n: int, m: int) -> None:
    Requires(n <= m)
    r = range(n, m)
    Assert(Implies(n < m, r[0] == n))


def c11(n: int, m: int) -> None:
    Requires(n <= m)
    r = range(n, m)
    Assert(Implies(n < m, r[-1] == m - 1))


def c12(n: int, m: int) -> None:
    Requires(n <= m)
    r = range(n, m)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(n < m, r[-1] == m))


def c13(n: int, m: int) -> None:
    Requires(n <= m)
    r = range(n, m)
    Assert(Implies(n + 2 < m, r[2] == n + 2))


def c14(n: int, m: int) -> None:
    Requires(n <= m)
    r = range(n, m)
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = r[0]


def c15(n: int, m: int) -> None:
    assert True


def c16(n: int) -> None:
    Requires(n > 0)
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = range(0, n)[n]


def c17(n: int) -> None:
    Requires(n > 0)
    x = range(0, n)[n - 1]


def c18(n: int) -> None:
    Requires(n > 0)
    x = range(0, n)[-1]


def c19(n: int) -> None:
    Requires(n > 0)
    x = range(0, n)[-n]


def c20(n: int) -> None:
    Requires(n > 0)
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = range(0, n)[-n - 1]


def c21(n: int) -> None:
    Requires(n >= 0)
    r = range(0, n, 2)
    Assert(Implies(n == 5, len(r) == 3))


def c22(n: int) -> None:
    Requires(n >= 0)
    r = range(0, n, 2)
    Assert(Implies(n == 6, len(r) == 3))


def c23(n: int) -> None:
    Requires(n >= 0)
    r = range(0, n, 2)
    Assert(Implies(n > 2, r[1] == 2))


def c24(n: int) -> None:
    Requires(n >= 0)
    r = range(0, n, 2)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(n > 2, r[1] == 1))


def c25(n: int) -> None:
    Requires(n >= 0)
    r = range(0, n, 2)
    #:: ExpectedOutput(application.precondition:assertion.false)
    x = range(0, n, 0)


def c26(n: int) -> None:
    Requires(n >= 0)
    r = range(0, n, 2)
    x = range(0, n, 1)
