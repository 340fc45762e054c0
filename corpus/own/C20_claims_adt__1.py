from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar


from nagini_contracts.adt import ADT
from typing import NamedTuple, cast
class Tree(ADT):
    pass
class Leaf(Tree, NamedTuple('Leaf', [])):
    pass
class Tip(Tree, NamedTuple('Tip', [('val', int)])):
    pass
class Fork(Tree, NamedTuple('Fork', [('left', Tree), ('key', int), ('right', Tree)])):
    pass
class Tree2(ADT):
    pass
class Leaf2(Tree2, NamedTuple('Leaf2', [])):
    pass


def c0(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    g = Fork(f, a, t)
    Assert(g.key == a)


def c1(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    g = Fork(f, a, t)
    Assert(g.right == t)


def c2(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    g = Fork(f, a, t)
    Assert(g.left == f)


def c3(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    g = Fork(f, a, t)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(g.left == t)


def c4(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    g = Fork(f, a, t)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(g.right == f)


def c5(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    g = Fork(f, a, t)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(g.key == b)


def c6(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    g = Fork(f, a, t)
    Assert(cast(Fork, g.left).key == b)


def c7(a: int, b: int) -> None:
    t = Tip(a)
    f = Fork(t, b, Leaf())
    g = Fork(f, a, t)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(cast(Fork, g.left).key == a)


def c8(t: Tree) -> None:
    Assert(type(t) is Leaf or type(t) is Tip or type(t) is Fork)


def c9(t: Tree) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(type(t) is Leaf or type(t) is Tip)


def c10(t: Tree) -> None:
    Assert(not (type(t) is Leaf and type(t) is Tip))


def c11(t: Tree) -> None:
    Assert(Implies(type(t) is Tip, t == Tip(cast(Tip, t).val)))


def c12(t: Tree) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(type(t) is Tip, t == Tip(3)))


def c13(t: Tree) -> None:
    Assert(Implies(type(t) is Fork, t == Fork(cast(Fork, t).left, cast(Fork, t).key, cast(Fork, t).right)))


def c14(t: Tree) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(type(t) is Fork, t == Fork(cast(Fork, t).right, cast(Fork, t).key, cast(Fork, t).left)))


def c15(t: Tree) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(t == Leaf())


def c16(t: Tree) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    Assert(cast(Tip, t).val == cast(Tip, t).val)


def c17(t: Tree) -> None:
    #:: ExpectedOutput(application.precondition:assertion.false)
    Assert(cast(Fork, t).key == cast(Fork, t).key)


def c18(t: Tree, a: int) -> None:
    Assert(Fork(t, a, t).left == t)


def c19(t: Tree, a: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Fork(t, a, Leaf()) != Fork(Leaf(), a, t))


def c20(t: Tree, a: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Fork(t, a, Leaf()) == Fork(Leaf(), a, t))


def c21(t: Tree, a: int) -> None:
    Assert(Fork(t, a, Leaf()) != Tip(a))


def c22(t: Tree, a: int) -> None:
    Assert(Leaf() != Tip(a))


def c23(t: Tree, a: int) -> None:
    Assert(Leaf() == Leaf())
