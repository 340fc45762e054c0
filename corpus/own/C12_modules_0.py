from nagini_contracts.contracts import *
from lib_c12_a import plain as four, COUNT, uses_late, Base
import lib_c12_b

a = four()
assert a == 4
#:: ExpectedOutput(assert.failed:assertion.false)
assert a == 5
b = uses_late()
c = COUNT
d = lib_c12_b.ping()
e = lib_c12_b.own()


def first() -> int:
    return second()


def second() -> int:
    return third



third = 3

g = first()
h = second()


class Derived(Base):
    def get(self) -> int:
        Ensures(Result() == 7)
        return 7

    def more(self) -> int:
        return 3


o = Derived()
i = o.get()
assert i == 7
