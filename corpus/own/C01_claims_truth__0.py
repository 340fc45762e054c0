from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


class Plain:
    pass

class Falsy:
    @Pure
    def __bool__(self) -> bool:
        return False

class Sized:
    @Pure
    def __len__(self) -> int:
        return 0


def c0(s: str) -> None:
    assert bool(s) == (len(s) > 0)


def c1(s: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert bool(s)


def c2(s: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert not s


def c3(s: str) -> None:
    r = 1 if s else 2
    assert r == (1 if len(s) > 0 else 2)


def c4(s: str) -> None:
    r = 1 if s else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 1


def c5(s: str) -> None:
    r = 1 if s else 2
    q = s or 'z'
    assert len(q) > 0


def c6(s: str) -> None:
    r = 1 if s else 2
    q = s or 'z'
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert q == s


def c7(xs: List[int]) -> None:
    Requires(list_pred(xs))
    r = 1 if xs else 2
    assert r == (1 if len(xs) > 0 else 2)


def c8(xs: List[int]) -> None:
    Requires(list_pred(xs))
    r = 1 if xs else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 1


def c9(xs: List[int]) -> None:
    Requires(list_pred(xs))
    r = 1 if xs else 2
    assert (not xs) == (len(xs) == 0)


def c10(xs: List[int]) -> None:
    Requires(list_pred(xs))
    r = 1 if xs else 2
    assert bool(xs) == (len(xs) > 0)


def c11(xs: List[int]) -> None:
    Requires(list_pred(xs))
    r = 1 if xs else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert bool(xs)


def c12(d: Dict[int, int]) -> None:
    Requires(dict_pred(d))
    r = 1 if d else 2
    assert r == (1 if len(d) > 0 else 2)


def c13(d: Dict[int, int]) -> None:
    Requires(dict_pred(d))
    r = 1 if d else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 1


def c14(d: Set[int]) -> None:
    Requires(set_pred(d))
    r = 1 if d else 2
    assert r == (1 if len(d) > 0 else 2)


def c15(d: Set[int]) -> None:
    Requires(set_pred(d))
    r = 1 if d else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert r == 1


def c16(x: Optional[int]) -> None:
    r = 1 if x else 2
    Assert(Implies(x is None, r == 2))


def c17(x: Optional[int]) -> None:
    r = 1 if x else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(x is not None, r == 1))


def c18(x: Optional[int]) -> None:
    r = 1 if x else 2
    Assert(Implies(x is not None and x != 0, r == 1))


def c19(x: Optional[int]) -> None:
    r = 1 if x else 2
    Assert(Implies(x is not None and x == 0, r == 2))


def c20(x: Optional[int]) -> None:
    r = 1 if x else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert x is not None


def c21(x: Optional[int]) -> None:
    r = 1 if x else 2
    Assert(Implies(r == 1, x is not None))


def c22(x: Optional[int]) -> None:
    r = 1 if x else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(r == 2, x is None))


def c23(o: object) -> None:
    r = 1 if o else 2
    Assert(Implies(o is None, r == 2))


def c24(o: object) -> None:
    r = 1 if o else 2
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(o is not None, r == 1))
