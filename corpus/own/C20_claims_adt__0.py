from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


from nagini_contracts.adt import ADT
from typing import NamedTuple, cast
class Tree(ADT):
    pass
class Leaf(Tree, NamedTuple('Leaf', [])):
    pass
class Tip(Tree, NamedTuple('Tip', [('val', int)])):
    pass
class Fork(Tree, NamedTuple('Fork', [('left', Tree), ('key', int), ('right', Tree)])):
    pass
class Tree2(ADT):
    pass
class Leaf2(Tree2, NamedTuple('Leaf2', [])):
    pass


def c0(a: int, b: int) -> None:
    t = Tip(a)
    Assert(t.val == a)


def c1(a: int, b: int) -> None:
    t = Tip(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(t.val == b)


def c2(a: int, b: int) -> None:
    t = Tip(a)
    Assert(t == Tip(a))


def c3(a: int, b: int) -> None:
    t = Tip(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(t == Tip(b))


def c4(a: int, b: int) -> None:
    t = Tip(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(t != Tip(b))


def c5(a: int, b: int) -> None:
    t = Tip(a)
    Assert(Implies(a != b, t != Tip(b)))


def c6(a: int, b: int) -> None:
    t = Tip(a)
    Assert(Implies(t == Tip(b), a == b))


def c7(a: int, b: int) -> None:
    t = Tip(a)
    Assert(type(t) is Tip)


def c8(a: int, b: int) -> None:
    t = Tip(a)
    Assert(type(t) is not Leaf)


def c9(a: int, b: int) -> None:
    t = Tip(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(type(t) is Leaf)


def c10(a: int, b: int) -> None:
    t = Tip(a)
    Assert(isinstance(t, Tip))


def c11(a: int, b: int) -> None:
    t = Tip(a)
    Assert(isinstance(t, Tree))


def c12(a: int, b: int) -> None:
    t = Tip(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(isinstance(t, Fork))


def c13(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    Assert(f.key == b)


def c14(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(f.key == a)


def c15(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    Assert(f.left == t)


def c16(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(f.right == t)


def c17(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    Assert(f.right == Leaf())


def c18(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    Assert(cast(Tip, f.left).val == a)


def c19(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(cast(Tip, f.left).val == b)


def c20(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    Assert(type(f.right) is Leaf)


def c21(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(type(f.right) is Tip)


def c22(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(type(f.left) is Leaf)


def c23(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    Assert(f == Fork(Tip(a), b, Leaf()))


def c24(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(f == Fork(Tip(b), a, Leaf()))


def c25(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    Assert(Implies(f == Fork(Tip(b), a, Leaf()), a == b))


def c26(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    Assert(f != Fork(Leaf(), b, Tip(a)))


def c27(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(f == Fork(Leaf(), b, Tip(a)))
