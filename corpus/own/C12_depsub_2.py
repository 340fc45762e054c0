from nagini_contracts.contracts import *


class K:
    def m(self) -> int:
        return 1

    @Pure
    def p(self) -> int:
        return 1


def usem(q: K) -> int:
    return q.m()


k = K()
x1 = usem(k)
x2 = k.m()
x3 = k.p()


class D(K):
    def m(self) -> int:
        return helper()

#:: ExpectedOutput(assert.failed:assertion.false)
y = k.m()


def helper() -> int:
    return 1


@Pure
def helperp() -> int:
    return 1


y1 = usem(k)
y2 = k.m()
y3 = k.p()
