from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class A(Exception):
    def __init__(self, n: int) -> None:
        Ensures(Acc(self.n) and self.n == n)
        self.n = n  # type: int

class B(A):
    def __init__(self, n: int) -> None:
        Ensures(Acc(self.n) and self.n == n)
        super().__init__(n)

class C(B):
    def __init__(self, n: int) -> None:
        Ensures(Acc(self.n) and self.n == n)
        super().__init__(n)

class D(Exception):
    pass

def must(k: int) -> None:
    Ensures(k <= 0)
    Exsures(B, k > 0 and Acc(RaisedException().n) and RaisedException().n == k)
    if k > 0:
        raise B(k)

def two(k: int) -> int:
    Ensures(k != 1 and k != 2 and Result() == k)
    Exsures(B, k == 1)
    Exsures(D, k == 2)
    if k == 1:
        raise B(0)
    if k == 2:
        raise D()
    return k


def c0(k: int) -> None:
    r = 0
    try:
        if k == 1:
            raise A(5)
        if k == 2:
            raise B(6)
        if k == 3:
            raise C(7)
        if k == 4:
            raise D()
        r = 9
    except B:
        r = 1
    except A:
        r = 2
    except Exception:
        r = 3
    Assert(Implies(k == 1, r == 2))


def c1(k: int) -> None:
    r = 0
    try:
        if k == 1:
            raise A(5)
        if k == 2:
            raise B(6)
        if k == 3:
            raise C(7)
        if k == 4:
            raise D()
        r = 9
    except B:
        r = 1
    except A:
        r = 2
    except Exception:
        r = 3
    Assert(Implies(k == 2, r == 1))


def c2(k: int) -> None:
    r = 0
    try:
        if k == 1:
            raise A(5)
        if k == 2:
            raise B(6)
        if k == 3:
            raise C(7)
        if k == 4:
            raise D()
        r = 9
    except B:
        r = 1
    except A:
        r = 2
    except Exception:
        r = 3
    Assert(Implies(k == 3, r == 1))


def c3(k: int) -> None:
    r = 0
    try:
        if k == 1:
            raise A(5)
        if k == 2:
            raise B(6)
        if k == 3:
            raise C(7)
        if k == 4:
            raise D()
        r = 9
    except B:
        r = 1
    except A:
        r = 2
    except Exception:
        r = 3
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(k == 3, r == 2))


def c4(k: int) -> None:
    r = 0
    try:
        if k == 1:
            raise A(5)
        if k == 2:
            raise B(6)
        if k == 3:
            raise C(7)
        if k == 4:
            raise D()
        r = 9
    except B:
        r = 1
    except A:
        r = 2
    except Exception:
        r = 3
    Assert(Implies(k == 4, r == 3))


def c5(k: int) -> None:
    r = 0
    try:
        if k == 1:
            raise A(5)
        if k == 2:
            raise B(6)
        if k == 3:
            raise C(7)
        if k == 4:
            raise D()
        r = 9
    except B:
        r = 1
    except A:
        r = 2
    except Exception:
        r = 3
    Assert(Implies(k > 4, r == 9))


def c6(k: int) -> None:
    r = 0
    try:
        if k == 1:
            raise A(5)
        if k == 2:
            raise B(6)
        if k == 3:
            raise C(7)
        if k == 4:
            raise D()
        r = 9
    except B:
        r = 1
    except A:
        r = 2
    except Exception:
        r = 3
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(k == 2, r == 2))


def c7(k: int) -> None:
    r = 0
    try:
        if k == 1:
            raise A(5)
        if k == 2:
            raise B(6)
        if k == 3:
            raise C(7)
        if k == 4:
            raise D()
        r = 9
    except B:
        r = 1
    except A:
        r = 2
    except Exception:
        r = 3
    assert r != 0


def c8(k: int) -> None:
    r = 0
    try:
        if k == 1:
            raise A(5)
        if k == 2:
            raise B(6)
        if k == 3:
            raise C(7)
        if k == 4:
            raise D()
        r = 9
    except A:
        r = 2
    except B:
        r = 1
    except Exception:
        r = 3
    Assert(Implies(k == 1, r == 2))


def c9(k: int) -> None:
    r = 0
    try:
        if k == 1:
            raise A(5)
        if k == 2:
            raise B(6)
        if k == 3:
            raise C(7)
        if k == 4:
            raise D()
        r = 9
    except A:
        r = 2
    except B:
        r = 1
    except Exception:
        r = 3
    Assert(Implies(k == 2, r == 2))


def c10(k: int) -> None:
    r = 0
    try:
        if k == 1:
            raise A(5)
        if k == 2:
            raise B(6)
        if k == 3:
            raise C(7)
        if k == 4:
            raise D()
        r = 9
    except A:
        r = 2
    except B:
        r = 1
    except Exception:
        r = 3
    Assert(Implies(k == 3, r == 2))


def c11(k: int) -> None:
    r = 0
    try:
        if k == 1:
            raise A(5)
        if k == 2:
            raise B(6)
        if k == 3:
            raise C(7)
        if k == 4:
            raise D()
        r = 9
    except A:
        r = 2
    except B:
        r = 1
    except Exception:
        r = 3
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(k == 2, r == 1))


def c12(k: int) -> None:
    r = 0
    try:
        if k == 1:
            raise A(5)
        if k == 2:
            raise B(6)
        if k == 3:
            raise C(7)
        if k == 4:
            raise D()
        r = 9
    except A:
        r = 2
    except B:
        r = 1
    except Exception:
        r = 3
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(k == 3, r == 1))


def c13(k: int) -> None:
    r = 0
    try:
        if k == 1:
            raise A(5)
        if k == 2:
            raise B(6)
        if k == 3:
            raise C(7)
        if k == 4:
            raise D()
        r = 9
    except A:
        r = 2
    except B:
        r = 1
    except Exception:
        r = 3
    Assert(Implies(k == 4, r == 3))


def c14(k: int) -> None:
    r = 0
    try:
        if k == 2:
            raise B(6)
        if k == 3:
            raise C(7)
        if k == 4:
            raise D()
        r = 9
    except Exception:
        r = 4
    except A:
        r = 2
    Assert(Implies(k == 2, r == 4))


def c15(k: int) -> None:
    r = 0
    try:
        if k == 2:
            raise B(6)
        if k == 3:
            raise C(7)
        if k == 4:
            raise D()
        r = 9
    except Exception:
        r = 4
    except A:
        r = 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(k == 2, r == 2))


def c16(k: int) -> None:
    r = 0
    try:
        if k == 2:
            raise B(6)
        if k == 3:
            raise C(7)
        if k == 4:
            raise D()
        r = 9
    except Exception:
        r = 4
    except A:
        r = 2
    Assert(Implies(k == 4, r == 4))


def c17(k: int) -> None:
    r = 0
    try:
        if k == 2:
            raise B(6)
        if k == 3:
            raise C(7)
        if k == 4:
            raise D()
        r = 9
    except Exception:
        r = 4
    except A:
        r = 2
    Assert(Implies(k == 1, r == 9))


def c18(k: int) -> None:
    r = 0
    try:
        try:
            if k == 1:
                raise A(5)
            if k == 2:
                raise B(6)
            if k == 3:
                raise D()
            r = 1
        except B:
            r = 2
        else:
            r = r + 10
        finally:
            r = r + 100
    except A:
        r = r + 1000
    except D:
        r = r + 2000
    else:
        r = r + 3000
    Assert(Implies(k == 0, r == 3111))


def c19(k: int) -> None:
    r = 0
    try:
        try:
            if k == 1:
                raise A(5)
            if k == 2:
                raise B(6)
            if k == 3:
                raise D()
            r = 1
        except B:
            r = 2
        else:
            r = r + 10
        finally:
            r = r + 100
    except A:
        r = r + 1000
    except D:
        r = r + 2000
    else:
        r = r + 3000
    Assert(Implies(k == 1, r == 1100))


def c20(k: int) -> None:
    r = 0
    try:
        try:
            if k == 1:
                raise A(5)
            if k == 2:
                raise B(6)
            if k == 3:
                raise D()
            r = 1
        except B:
            r = 2
        else:
            r = r + 10
        finally:
            r = r + 100
    except A:
        r = r + 1000
    except D:
        r = r + 2000
    else:
        r = r + 3000
    Assert(Implies(k == 2, r == 3102))


def c21(k: int) -> None:
    r = 0
    try:
        try:
            if k == 1:
                raise A(5)
            if k == 2:
                raise B(6)
            if k == 3:
                raise D()
            r = 1
        except B:
            r = 2
        else:
            r = r + 10
        finally:
            r = r + 100
    except A:
        r = r + 1000
    except D:
        r = r + 2000
    else:
        r = r + 3000
    Assert(Implies(k == 3, r == 2100))


def c22(k: int) -> None:
    r = 0
    try:
        try:
            if k == 1:
                raise A(5)
            if k == 2:
                raise B(6)
            if k == 3:
                raise D()
            r = 1
        except B:
            r = 2
        else:
            r = r + 10
        finally:
            r = r + 100
    except A:
        r = r + 1000
    except D:
        r = r + 2000
    else:
        r = r + 3000
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(k == 1, r == 1110))


def c23(k: int) -> None:
    r = 0
    try:
        try:
            if k == 1:
                raise A(5)
            if k == 2:
                raise B(6)
            if k == 3:
                raise D()
            r = 1
        except B:
            r = 2
        else:
            r = r + 10
        finally:
            r = r + 100
    except A:
        r = r + 1000
    except D:
        r = r + 2000
    else:
        r = r + 3000
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(k == 2, r == 3112))


def c24(k: int) -> None:
    r = 0
    try:
        try:
            if k == 1:
                raise A(5)
            if k == 2:
                raise B(6)
            if k == 3:
                raise D()
            r = 1
        except B:
            r = 2
        else:
            r = r + 10
        finally:
            r = r + 100
    except A:
        r = r + 1000
    except D:
        r = r + 2000
    else:
        r = r + 3000
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(k == 3, r == 1100))


def c25(k: int) -> None:
    r = 0
    try:
        try:
            if k == 1:
                raise A(5)
            if k == 2:
                raise B(6)
            if k == 3:
                raise D()
            r = 1
        except B:
            r = 2
        else:
            r = r + 10
        finally:
            r = r + 100
    except A:
        r = r + 1000
    except D:
        r = r + 2000
    else:
        r = r + 3000
    assert r >= 1100


def c26(k: int) -> None:
    n = 0
    try:
        if k > 0:
            raise B(k)
        n = -1
    except A as e:
        n = e.n
    Assert(Implies(k > 0, n == k))
