from nagini_contracts.contracts import *

class A:
    def __init__(self, b: bool) -> None:
        Ensures(Acc(self.x))
        Ensures(Implies(b, self.x == 2))
        Ensures(Implies(not b, self.x == 1))
        self.x = 1  # type: int
        if b:
            self.x = 2

    def set(self) -> None:
        Requires(MayCreate(self, 'y'))
        Ensures(Acc(self.y))
        Ensures(self.y == 4)
        self.y = 3  # type: int
        self.y = 4

class B:
    def __init__(self) -> None:
        self.x = 1  # type: int
        self.x = 2
        #:: ExpectedOutput(assert.failed:assertion.false)
        assert False

    def f(self) -> None:
        Requires(MaySet(self, 'x'))
        self.x = 1
        #:: ExpectedOutput(assert.failed:insufficient.permission)
        Assert(MaySet(self, 'x') and MayCreate(self, 'x'))

def two(b: B) -> None:
    Requires(MayCreate(b, 'x'))
    b.x = 1
    b.x = 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b.x == 1
