from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(b: bool, n: int) -> None:
    if b:
        x = 3
    #:: ExpectedOutput(expression.undefined:undefined.local.variable)
    y = x


def c1(b: bool, n: int) -> None:
    if b:
        x = 3
    y = n


def c2(b: bool, n: int) -> None:
    if b:
        x = 3
    Assert(Implies(b, x == 3))


def c3(b: bool, n: int) -> None:
    if b:
        x = 3
    if b:
        y = x
    else:
        x = 4
    y = x


def c4(b: bool, n: int) -> None:
    if b:
        x = 3
    if b:
        y = x
    else:
        x = 4
    assert x >= 3


def c5(b: bool, n: int) -> None:
    if b:
        x = 3
    if b:
        y = x
    else:
        x = 4
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x == 3


def c6(b: bool, n: int) -> None:
    if b:
        x = 3
    if b:
        y = x
    else:
        x = 4
    #:: ExpectedOutput(expression.undefined:undefined.local.variable)
    z = y


def c7(b: bool, c: bool) -> None:
    if b:
        x = 1
    elif c:
        x = 2
    #:: ExpectedOutput(expression.undefined:undefined.local.variable)
    y = x


def c8(b: bool, c: bool) -> None:
    if b:
        x = 1
    elif c:
        x = 2
    if not b:
        if not c:
            x = 3
    y = x


def c9(b: bool, c: bool) -> None:
    if b:
        x = 1
    elif c:
        x = 2
    if not b:
        if not c:
            x = 3
    assert x == 1 or x == 2 or x == 3


def c10(b: bool, c: bool) -> None:
    if b:
        x = 1
    elif c:
        x = 2
    if not b:
        if not c:
            x = 3
    Assert(Implies(not b and not c, x == 3))


def c11(b: bool, c: bool) -> None:
    if b:
        x = 1
    elif c:
        x = 2
    if not b:
        if not c:
            x = 3
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(c, x == 2))


def c12(n: int) -> None:
    i = 0
    while i < n:
        Invariant(i >= 0)
        last = i
        i += 1
    #:: ExpectedOutput(expression.undefined:undefined.local.variable)
    y = last


def c13(n: int) -> None:
    i = 0
    while i < n:
        Invariant(i >= 0)
        last = i
        i += 1
    y = i


def c14(n: int) -> None:
    Requires(n > 0)
    i = 0
    while i < n:
        Invariant(i >= 0)
        last = i
        i += 1
    y = i


def c15(l: List[int]) -> None:
    Requires(list_pred(l))
    for x in l:
        Invariant(True)
        pass
    #:: ExpectedOutput(expression.undefined:undefined.local.variable)
    y = x


def c16(l: List[int]) -> None:
    Requires(list_pred(l))
    Requires(len(l) > 0)
    for x in l:
        Invariant(True)
        pass
    y = x


def c17(n: int) -> None:
    try:
        if n > 3:
            raise Exception()
        x = 5
    except Exception:
        pass
    #:: ExpectedOutput(expression.undefined:undefined.local.variable)
    y = x


def c18(n: int) -> None:
    try:
        if n > 3:
            raise Exception()
        x = 5
    except Exception:
        pass
    if n <= 3:
        z = x
    #:: ExpectedOutput(expression.undefined:undefined.local.variable)
    w = z


def c19(n: int) -> None:
    try:
        if n > 3:
            raise Exception()
        x = 5
    except Exception:
        pass
    if n <= 3:
        z = x
    #:: ExpectedOutput(expression.undefined:undefined.local.variable)
    y = x


def c20(n: int) -> None:
    try:
        if n > 3:
            raise Exception()
        x = 5
    except Exception:
        x = 6
    y = x


def c21(n: int) -> None:
    try:
        if n > 3:
            raise Exception()
        x = 5
    except Exception:
        x = 6
    assert x == 5 or x == 6
