from nagini_contracts.contracts import *


class K:
    def __init__(self) -> None:
        self.v = 3

    def m(self) -> int:
        return helper()

    @Pure
    def p(self) -> int:
        return helperp()

    @staticmethod
    def s() -> int:
        return helper()

    def rec(self, n: int) -> int:
        if n > 0:
            return self.rec(n - 1)
        return helper()


class Late:
    def __init__(self) -> None:
        self.w = helper()


def usem(q: K) -> int:
    return q.m()


def uses() -> int:
    return K.s()


def usep(q: K) -> int:
    return q.p()


def user(q: K) -> int:
    return q.rec(2)


def usec() -> Late:
    return Late()


k = K()
#:: ExpectedOutput(assert.failed:assertion.false)
x = usem(k)


def helper() -> int:
    return 1


@Pure
def helperp() -> int:
    return 1


a = k.m()
b = k.p()
c = K.s()
d = usem(k)
e = uses()
f = usep(k)
g = user(k)
h = usec()
