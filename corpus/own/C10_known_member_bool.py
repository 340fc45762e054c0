from nagini_contracts.contracts import *


def member(p: bool) -> None:
    xs = [1, 0]
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert p not in xs


def member_set() -> None:
    s = {1, 2}
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert True not in s


def member_dict() -> None:
    d = {1: 5}
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert True not in d
