# Any copyright is dedicated to the Public Domain.
# http://creativecommons.org/publicdomain/zero/1.0/

from typing import List
from nagini_contracts.contracts import *


def test_seq() -> None:
    no_ints = PByteSeq()
    Assert(len(no_ints) == 0)
    ints = PByteSeq(1, 2, 3)

    Assert(3 in ints and 1 in ints)
    Assert(4 not in ints)
    Assert(ints[1] == 2)
    Assert(len(ints) == 3)
    ints2 = ints + ints
    Assert(len(ints2) == 6)
    Assert(ints2[3] == 1)
    ints3 = ints2.take(4)
    Assert(len(ints3) == 4)
    Assert(ints3[1] == ints2[1])
    ints4 = ints.update(0, 3)
    Assert(1 not in ints4)
    Assert(ints4[0] == 3)
    ints5 = ints.drop(2)
    Assert(len(ints5) == 1)
    Assert(ints5[0] == 3)
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert False

def test_byteseq_bounds_low(b: PByteSeq) -> None:
    Requires(len(b) > 1)
    
    Assert(b[0] >= 0)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(b[1] < 0)
    
def test_byteseq_bounds_high(b: PByteSeq) -> None:
    Requires(len(b) > 1)
    
    Assert(b[0] <= 255)
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(b[1] > 255)

def test_range() -> None:
    ints = PByteSeq(1,3,5,6,8)
    r = ints.drop(1).take(2)

    Assert(len(ints) == 5)
    Assert(len(r) == 2)
    Assert(5 in r)
    Assert(r[0] == 3)
    Assert(1 not in r)
    Assert(8 not in r)

    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(r[1] == 6)

def test_list_ToByteSeq() -> None:
    a = [1,2,3]
    Assert(ToByteSeq(a) == PByteSeq(1,2,3))
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert False


def test_bytearray_ToByteSeq() -> None:
    a = bytearray([1,2,3])
    Assert(ToByteSeq(a) == PByteSeq(1,2,3))
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert False
    
def test_bytearray_bounds(b_array: bytearray) -> None:
    Requires(bytearray_pred(b_array))
    Requires(len(b_array) > 2)    
    seq = ToByteSeq(b_array)
    
    Assert(0 <= seq[0] and seq[0] <= 0xFF)
    
    #:: ExpectedOutput(assert.failed:assertion.false)
    Assert(seq[1] >= 256)
    
def test_list_interop(b_array: bytearray) -> None:
    Requires(bytearray_pred(b_array))
    l = list(b_array)
    
    byteseq_direct = ToByteSeq(b_array)
    byteseq = ToByteSeq(l)
    
    Assert(byteseq_direct == byteseq)

def test_list_interop2(b_list: List[int]) -> None:
    Requires(list_pred(b_list))
    Requires(Forall(b_list, lambda el: 0 <= el and el < 256))

    byteseq_direct = ToByteSeq(b_list)

    b_array = bytearray(b_list)
    byteseq = ToByteSeq(b_array)

    Assert(byteseq_direct == byteseq)
