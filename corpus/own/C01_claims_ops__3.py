from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


def ident(x: int) -> int:
    Ensures(Result() == x)
    return x


def c0(p: bool, q: bool) -> None:
    assert (p or q) == (not (not p and not q))


def c1(p: bool, q: bool) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (p or q) == (p and q)


def c2(p: bool, q: bool) -> None:
    assert (p != q) == ((p and not q) or (q and not p))


def c3(p: bool, q: bool) -> None:
    assert (p == q) == (p != (not q))


def c4(p: bool, q: bool) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (p == q) == (p == (not q))


def c5(p: bool, q: bool) -> None:
    assert p + q == 2 or p + q == 1 or p + q == 0


def c6(p: bool, q: bool) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert p + q == 1


def c7(p: bool, q: bool) -> None:
    assert (p + q == 2) == (p and q)


def c8(p: bool, q: bool) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (p + q == 1) == (p or q)


def c9(p: bool, q: bool) -> None:
    assert (p + q == 1) == (p != q)


def c10(p: bool, q: bool) -> None:
    assert p * q == (1 if p and q else 0)


def c11(p: bool, q: bool) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert p * q == (1 if p or q else 0)


def c12(p: bool, q: bool) -> None:
    assert p - q == (1 if p else 0) - (1 if q else 0)


def c13(p: bool, q: bool) -> None:
    assert -p == (-1 if p else 0)


def c14(p: bool, q: bool) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert -p == p


def c15(p: bool, q: bool) -> None:
    assert int(p) == (1 if p else 0)


def c16(p: bool, q: bool) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert int(p) == 1


def c17(p: bool, q: bool) -> None:
    assert abs(-p) == (1 if p else 0)


def c18(p: bool, q: bool) -> None:
    assert p == 1 or p == 0


def c19(p: bool, q: bool) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert p == 1


def c20(p: bool, q: bool) -> None:
    assert (p == 1) == p


def c21(p: bool, q: bool) -> None:
    assert (p < q) == (not p and q)


def c22(p: bool, q: bool) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (p < q) == (p and not q)


def c23(p: bool, q: bool) -> None:
    assert (p <= q) == (not p or q)


def c24(p: bool, q: bool) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (p <= q) == (p or not q)


def c25(p: bool, q: bool) -> None:
    assert (p >= q) == (p or not q)


def c26(p: bool, q: bool) -> None:
    assert (p > q) == (p and not q)


def c27(p: bool, q: bool) -> None:
    assert max(p, q) == (1 if p or q else 0)


def c28(p: bool, q: bool) -> None:
    assert min(p, q) == (1 if p and q else 0)


def c29(p: bool, q: bool) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert min(p, q) == (1 if p or q else 0)


def c30(p: bool, q: bool) -> None:
    assert (p & q) == (p and q)


def c31(p: bool, q: bool) -> None:
    assert (p | q) == (p or q)


def c32(p: bool, q: bool) -> None:
    assert (p ^ q) == (p != q)


def c33(p: bool, q: bool) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (p & q) == (p or q)


def c34(p: bool, q: bool) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (p ^ q) == (p or q)


def c35(p: bool, q: bool) -> None:
    assert (not p) == (p == 0)
