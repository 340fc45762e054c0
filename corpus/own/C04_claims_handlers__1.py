from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class A(Exception):
    def __init__(self, n: int) -> None:
        Ensures(Acc(self.n) and self.n == n)
        self.n = n  # type: int

class B(A):
    def __init__(self, n: int) -> None:
        Ensures(Acc(self.n) and self.n == n)
        super().__init__(n)

class C(B):
    def __init__(self, n: int) -> None:
        Ensures(Acc(self.n) and self.n == n)
        super().__init__(n)

class D(Exception):
    pass

def must(k: int) -> None:
    Ensures(k <= 0)
    Exsures(B, k > 0 and Acc(RaisedException().n) and RaisedException().n == k)
    if k > 0:
        raise B(k)

def two(k: int) -> int:
    Ensures(k != 1 and k != 2 and Result() == k)
    Exsures(B, k == 1)
    Exsures(D, k == 2)
    if k == 1:
        raise B(0)
    if k == 2:
        raise D()
    return k


def c0(k: int) -> None:
    n = 0
    try:
        if k > 0:
            raise B(k)
        n = -1
    except A as e:
        n = e.n
    Assert(Implies(k <= 0, n == -1))


def c1(k: int) -> None:
    n = 0
    try:
        if k > 0:
            raise B(k)
        n = -1
    except A as e:
        n = e.n
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(k > 0, n == 0))


def c2(k: int) -> None:
    n = 0
    try:
        if k > 0:
            raise B(k)
        n = -1
    except A as e:
        n = e.n
    assert n != 0


def c3(k: int) -> None:
    n = 0
    try:
        must(k)
        n = -1
    except A as e:
        n = e.n
    Assert(Implies(k > 0, n == k))


def c4(k: int) -> None:
    n = 0
    try:
        must(k)
        n = -1
    except A as e:
        n = e.n
    Assert(Implies(k <= 0, n == -1))


def c5(k: int) -> None:
    n = 0
    try:
        must(k)
        n = -1
    except A as e:
        n = e.n
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(k > 0, n == 1))


def c6(k: int) -> None:
    n = 0
    try:
        must(k)
        n = -1
    except A as e:
        n = e.n
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert n == -1


def c7(k: int) -> None:
    r = 0
    try:
        r = two(k)
    except D:
        r = -2
    except A:
        r = -1
    Assert(Implies(k == 1, r == -1))


def c8(k: int) -> None:
    r = 0
    try:
        r = two(k)
    except D:
        r = -2
    except A:
        r = -1
    Assert(Implies(k == 2, r == -2))


def c9(k: int) -> None:
    r = 0
    try:
        r = two(k)
    except D:
        r = -2
    except A:
        r = -1
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(k == 1, r == -2))


def c10(k: int) -> None:
    r = 0
    try:
        r = two(k)
    except D:
        r = -2
    except A:
        r = -1
    Assert(Implies(k > 2, r == k))


def c11(k: int) -> None:
    r = 0
    try:
        r = two(k)
    except D:
        r = -2
    except A:
        r = -1
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == k


def c12(k: int) -> None:
    r = 0
    try:
        try:
            raise B(1)
        except B:
            r = 1
            raise D()
        except D:
            r = 2
    except D:
        r = r + 10
    assert r == 11


def c13(k: int) -> None:
    r = 0
    try:
        try:
            raise B(1)
        except B:
            r = 1
            raise D()
        except D:
            r = 2
    except D:
        r = r + 10
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 12


def c14(k: int) -> None:
    r = 0
    try:
        try:
            raise B(1)
        except B:
            r = 1
            raise D()
        except D:
            r = 2
    except D:
        r = r + 10
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 2


def c15(k: int) -> None:
    r = 0
    try:
        try:
            raise A(1)
        except C:
            r = 1
        finally:
            r = r + 5
    except A:
        r = r + 10
    assert r == 15


def c16(k: int) -> None:
    r = 0
    try:
        try:
            raise A(1)
        except C:
            r = 1
        finally:
            r = r + 5
    except A:
        r = r + 10
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 16


def c17(k: int) -> None:
    r = 0
    for i in [1]:
        try:
            if k == 0:
                break
            if k == 1:
                continue
            if k == 2:
                raise D()
            r = 1
        except D:
            r = 2
        else:
            r = r + 10
        finally:
            r = r + 100
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 7


def c18(k: int) -> None:
    assert k == k


#:: ExpectedOutput(exhale.failed:assertion.false)
def c19(k: int) -> None:
    raise A(1)


#:: ExpectedOutput(exhale.failed:assertion.false)
def c20(k: int) -> None:
    must(k)


#:: ExpectedOutput(exhale.failed:assertion.false)
def c21(k: int) -> None:
    two(1)


def c22(k: int) -> None:
    assert two(3) == 3


def c23(k: int) -> None:
    Requires(k <= 0)
    must(k)


#:: ExpectedOutput(exhale.failed:assertion.false)
def c24(k: int) -> None:
    Requires(k <= 0)
    two(2)


def c25(k: int) -> None:
    Requires(k <= 0)
    two(0)
