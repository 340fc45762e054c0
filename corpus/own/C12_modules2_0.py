from nagini_contracts.contracts import *
import lib_c12_a
import lib_c12_b as bb


class K:
    def __init__(self) -> None:
        self.v = helper()  # type: int

    def late(self) -> int:
        return helper2()


def mk() -> K:
    return K()


#:: ExpectedOutput(assert.failed:assertion.false)
k = mk()


def helper() -> int:
    return 1


k2 = mk()


def call_late(q: K) -> int:
    return q.late()




def helper2() -> int:
    return constant



constant = 4

p = call_late(k2)
q = bb.ping()
r = lib_c12_a.uses_count()
s = lib_c12_a.COUNT
assert s == 3
