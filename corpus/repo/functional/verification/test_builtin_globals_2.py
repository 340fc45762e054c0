# Any copyright is dedicated to the Public Domain.
# http://creativecommons.org/publicdomain/zero/1.0/

from resources.builtin_globals_test import *

#:: ExpectedOutput(assert.failed:assertion.false)
assert False