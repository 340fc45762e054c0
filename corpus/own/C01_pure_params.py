from nagini_contracts.contracts import *


@Pure
def cond_param(x: int, c: bool) -> int:
    Ensures(Result() == (2 if c else x))
    if c:
        x = 2
    return x


@Pure
def none_param(x: object, c: bool) -> object:
    #:: ExpectedOutput(postcondition.violated:assertion.false)
    Ensures(Result() is None)
    if c:
        x = None
    return x


@Pure
def aug_param(x: int) -> int:
    Ensures(Result() == x + 1)
    x += 1
    return x


@Pure
def aug_cond(x: int, c: bool) -> int:
    Ensures(Implies(c, Result() == x * 3))
    Ensures(Implies(not c, Result() == x - 1))
    if c:
        x *= 3
        return x
    x -= 1
    return x


@Pure
def aug_both(x: int, c: bool, d: bool) -> int:
    if c:
        x += 1
    if d:
        x += 10
    else:
        x = 7
    return x


def client() -> None:
    assert aug_both(1, True, True) == 12
    assert aug_both(1, False, True) == 11
    assert aug_both(1, False, False) == 7
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert cond_param(3, False) == 2


@Pure
def local_only(b: bool) -> int:
    x = 2
    if b:
        y = 1
        x = x + y
        x += x
    else:
        x = x * 5
    return x


def client2() -> None:
    assert local_only(True) == 6
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert local_only(False) == 6
