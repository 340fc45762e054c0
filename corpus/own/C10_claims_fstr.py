from nagini_contracts.contracts import *
from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar





def c0(a: str, b: str) -> None:
    c = f'{a}{b}'
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert c == b + a


def c1(a: str, b: str) -> None:
    c = f'{a}{b}'
    d = f'x{a}y'
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert d == 'x' + a


def c2(a: str, b: str) -> None:
    c = f'{a}{b}'
    d = f'x{a}y'
    e = 'abc'
    assert len(e) == 3


def c3(a: str, b: str) -> None:
    c = f'{a}{b}'
    d = f'x{a}y'
    e = 'abc'
    assert e == 'abc'


def c4(a: str, b: str) -> None:
    c = f'{a}{b}'
    d = f'x{a}y'
    e = 'abc'
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert e == 'abd'


def c5(a: str, b: str) -> None:
    c = f'{a}{b}'
    d = f'x{a}y'
    e = 'abc'
    assert e != ''


def c6(a: str, b: str) -> None:
    c = f'{a}{b}'
    d = f'x{a}y'
    e = 'abc'
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert f'{a}' == ''


def c7(a: str) -> None:
    assert a + '' == a


def c8(a: str) -> None:
    assert '' + a == a


def c9(a: str) -> None:
    assert len(a) >= 0


def c10(a: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert len(a) > 0


def c11(a: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert a == ''


def c12(a: str) -> None:
    assert 'ab' + 'c' == 'abc'


def c13(a: str) -> None:
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert 'ab' + 'c' == 'acb'


def c14(a: str) -> None:
    assert 'ab' == 'a' + 'b'


def c15(a: int) -> None:
    s = str(a)
    assert s == str(a)


def c16(a: int) -> None:
    s = str(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert s == '5'


def c17(a: int) -> None:
    s = str(a)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert s == ''


def c18(a: int) -> None:
    s = str(a)
    t = f'{a}'
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert t == 'x'
