# Any copyright is dedicated to the Public Domain.
# http://creativecommons.org/publicdomain/zero/1.0/

holger = 14

from resources.test_import_cyclic_file import doggo, woofer

schneido = 15
#:: ExpectedOutput(assert.failed:assertion.false)
# The expected output occurs in the imported file, not here.