# Any copyright is dedicated to the Public Domain.
# http://creativecommons.org/publicdomain/zero/1.0/

from typing import List
from nagini_contracts.contracts import *

a: List[int] = [1]
a[0] += 1

