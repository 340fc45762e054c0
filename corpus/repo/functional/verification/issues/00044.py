# Any copyright is dedicated to the Public Domain.
# http://creativecommons.org/publicdomain/zero/1.0/

from typing import Optional


def test() -> None:
    x = None    # type: Optional[int]
