from nagini_contracts.contracts import *


class A:
    pass


@Inline
def pick(b: bool) -> object:
    if b:
        x = A()  # type: object
    #:: ExpectedOutput(expression.undefined:undefined.local.variable,L1)
    return x


def main1() -> object:
    x = A()
    #:: Label(L1)
    r = pick(False)
    return r


def main2(b: bool) -> object:
    if b:
        x = A()
    pick(True)
    #:: ExpectedOutput(expression.undefined:undefined.local.variable)
    return x


def main3(b: bool) -> object:
    q = pick(True)
    return q
