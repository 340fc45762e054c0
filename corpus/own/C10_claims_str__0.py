from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(s: str, t: str) -> None:
    assert len(s + t) == len(s) + len(t)


def c1(s: str, t: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(s + t) > len(s)


def c2(s: str, t: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert s + t == t + s


def c3(s: str, t: str) -> None:
    Assert(Implies(s == t, len(s) == len(t)))


def c4(s: str, t: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(Implies(len(s) == len(t), s == t))


def c5(s: str, t: str) -> None:
    Assert(Implies(s == t, s + 'a' == t + 'a'))


def c6(s: str, t: str) -> None:
    assert s + '' == s


def c7(s: str, t: str) -> None:
    assert '' + s == s


def c8(s: str, t: str) -> None:
    assert len(s) >= 0


def c9(s: str, t: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(s) > 0


def c10(s: str, t: str) -> None:
    assert s == s


def c11(s: str, t: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert s != s


def c12(s: str, t: str) -> None:
    assert (s == t) == (t == s)


def c13(s: str, t: str) -> None:
    Assert(Implies(s != t, s + 'a' != t + 'a'))


def c14(s: str, t: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert s == 'a'


def c15(s: str, t: str) -> None:
    assert 'ab' == 'a' + 'b'


def c16(s: str, t: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 'ab' == 'b' + 'a'


def c17(s: str, t: str) -> None:
    assert len('abc') == 3


def c18(s: str, t: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len('abc') == 4


def c19(s: str, t: str) -> None:
    assert len('') == 0


def c20(s: str, t: str) -> None:
    assert 'a' != 'b'


def c21(s: str, t: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 'a' == 'b'


def c22(s: str, t: str) -> None:
    assert s + 'a' != s + 'b'


def c23(s: str, t: str) -> None:
    assert s + 'a' != s


def c24(s: str, t: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert s + 'a' == s


def c25(s: str, t: str) -> None:
    assert (s + t) + 'x' == s + (t + 'x')


def c26(s: str, t: str) -> None:
    Assert(Implies(s + t == s, t == ''))


def c27(s: str, i: int) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert str(i) == '1'


def c28(b: bytes, c: bytes) -> None:
    assert len(b + c) == len(b) + len(c)


def c29(b: bytes, c: bytes) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert b + c == c + b


def c30(b: bytes, c: bytes) -> None:
    assert len(b) >= 0


def c31(b: bytes, c: bytes) -> None:
    assert len(b * 2) == 2 * len(b)


def c32(b: bytes, c: bytes) -> None:
    assert b * 0 == b''
