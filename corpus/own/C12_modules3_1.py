from nagini_contracts.contracts import *

x = 1
assert x == 1
if x == 1:
    y = 2
else:
    z = 3
assert y == 2
