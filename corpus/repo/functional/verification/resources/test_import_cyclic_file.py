# Any copyright is dedicated to the Public Domain.
# http://creativecommons.org/publicdomain/zero/1.0/

doggo = 12

woofer = 17

from test_imports_cyclic import holger

from test_imports_cyclic import schneido