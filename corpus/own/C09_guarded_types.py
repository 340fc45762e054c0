from nagini_contracts.contracts import *
from typing import List, Tuple, Dict


def s1(o: object) -> None:
    Requires(isinstance(o, int))
    Assert(Implies(True, (isinstance(o, str) and o in PSet(o)) or True))
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert False


def s2(o: object) -> None:
    Requires(isinstance(o, int))
    Assert(Implies(True, (isinstance(o, str) and o in PSeq(o)) or True))
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert False


def s3(o: object) -> None:
    Requires(isinstance(o, int))
    Assert(Implies(True, (isinstance(o, str) and PSeq(o).take(1) == PSeq(o)) or True))
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert False


def s4(o: object) -> None:
    Requires(isinstance(o, int))
    b = isinstance(o, str) and (o, o)[0] == o
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert False


def s5(o: object) -> None:
    Requires(isinstance(o, int))
    b = isinstance(o, str) and o + 'a' == 'b' and len(o) > 0
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert False


def s6(o: object) -> None:
    Requires(isinstance(o, str))
    b = isinstance(o, int) and o + 1 == 3 and -o == 5
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert False


def s7(o: object) -> None:
    Requires(isinstance(o, str))
    b = isinstance(o, bool) and not o
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert False


def s8(o: object) -> None:
    Requires(isinstance(o, str))
    Assert(Implies(True, (isinstance(o, int) and PMultiset(o).num(o) == 1) or True))
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert False


def s9(o: object) -> None:
    Requires(isinstance(o, str))
    b = isinstance(o, float) and o + 1.0 == 2.0 and o < 3.0
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert False


def s10(o: object) -> None:
    Requires(o is None)
    b = isinstance(o, bytes) and o[0] == 3 and len(o + o) == 4
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert False


def s11(o: object) -> None:
    Requires(o is None)
    b = isinstance(o, range) and o[0] == 3 and len(o) == 4
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert False


def s12(o: object) -> None:
    Requires(o is None)
    Assert(Implies(True, (isinstance(o, int) and PSeq(o).update(0, o) == PSeq(o)) or True))
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert False
