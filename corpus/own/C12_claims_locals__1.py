from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(n: int) -> None:
    try:
        if n > 3:
            raise Exception()
        x = 5
    except Exception:
        x = 6
    Assert(Implies(n > 3, x == 6))


def c1(n: int) -> None:
    try:
        if n > 3:
            raise Exception()
        x = 5
    except Exception:
        x = 6
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x == 5


def c2(n: int) -> None:
    try:
        if n > 3:
            raise Exception()
        x = 5
    except Exception:
        t = 2
    else:
        t = x
    y = t


def c3(n: int) -> None:
    try:
        if n > 3:
            raise Exception()
        x = 5
    except Exception:
        t = 2
    else:
        t = x
    #:: ExpectedOutput(expression.undefined:undefined.local.variable)
    y = x


def c4(n: int) -> None:
    try:
        if n > 3:
            raise Exception()
        x = 5
    except Exception:
        t = 2
    else:
        t = x
    assert t == 2 or t == 5


def c5(n: int) -> None:
    try:
        if n > 3:
            raise Exception()
        x = 5
    except Exception:
        t = 2
    else:
        t = x
    Assert(Implies(n > 3, t == 2))


def c6(n: int) -> None:
    try:
        x = 5
    finally:
        u = 2
    y = x + u


def c7(n: int) -> None:
    while True:
        Invariant(True)
        if n > 3:
            x = 1
            break
        x = 2
        if n < 3:
            break
        break
    y = x


def c8(n: int) -> None:
    while True:
        Invariant(True)
        if n > 3:
            x = 1
            break
        x = 2
        if n < 3:
            break
        break
    Assert(Implies(n > 3, x == 1))


def c9(n: int) -> None:
    match n:
        case 1:
            x = 1
        case 2:
            x = 2
    #:: ExpectedOutput(expression.undefined:undefined.local.variable)
    y = x


def c10(n: int) -> None:
    match n:
        case 1:
            x = 1
        case _:
            x = 2
    y = x


def c11(n: int) -> None:
    match n:
        case 1:
            x = 1
        case _:
            x = 2
    Assert(Implies(n != 1, x == 2))


def c12(n: int) -> None:
    match n:
        case k:
            pass
    y = k


def c13(n: int) -> None:
    match n:
        case k:
            pass
    assert k == n


def c14(b: bool) -> None:
    x = 1
    if b:
        z = 2
    x = z if b else x
    y = x


def c15(b: bool) -> None:
    x = 1
    if b:
        z = 2
    x = z if b else x
    Assert(Implies(not b, x == 1))


def c16(b: bool) -> None:
    x = 1
    if b:
        z = 2
    x = z if b else x
    w = b and z == 2
    #:: ExpectedOutput(expression.undefined:undefined.local.variable)
    y = z


def c17(b: bool) -> None:
    x = 1
    if b:
        z = 2
    x = z if b else x
    w = b and z == 2
    assert w == b


def c18(b: bool) -> None:
    if b:
        z = 2
    #:: ExpectedOutput(expression.undefined:undefined.local.variable)
    w = b or z == 2


def c19(b: bool) -> None:
    if b:
        z = 2
    #:: ExpectedOutput(expression.undefined:undefined.local.variable)
    w = z if not b else 1


def c20(b: bool) -> None:
    if b:
        p, q = 1, 2
    else:
        p = 3
    y = p


def c21(b: bool) -> None:
    if b:
        p, q = 1, 2
    else:
        p = 3
    #:: ExpectedOutput(expression.undefined:undefined.local.variable)
    y = q
