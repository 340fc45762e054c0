from nagini_contracts.contracts import *
from typing import Dict


def f(d: Dict[int, int]) -> int:
    Requires(dict_pred(d))
    Requires(len(d) == 2 and 0 in d and 1 in d and d[0] == 5 and d[1] == 6)
    #:: ExpectedOutput(unsupported:unpacking of dictionaries)
    x, y = d
    return x
