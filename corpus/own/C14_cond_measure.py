from nagini_contracts.contracts import *


@Pure
def down(n: int) -> int:
    Decreases(n, n > 5)
    if n > 6:
        return down(n - 1)
    return 0


@Pure
def at_limit(n: int) -> int:
    Decreases(n, n > 5)
    if n > 5:
        #:: ExpectedOutput(termination.failed:termination.condition.false)
        return at_limit(n - 1)
    return 0


@Pure
def outside(n: int) -> int:
    Decreases(n, n > 5)
    if n < 0:
        return outside(n - 1)
    return 0


@Pure
def caller(n: int) -> int:
    Requires(n > 5)
    Decreases(n)
    return down(n)


@Pure
def caller_outside(n: int) -> int:
    Decreases(n)
    #:: ExpectedOutput(termination.failed:termination.condition.false)
    return outside(n)


@Pure
def no_clause(n: int) -> int:
    return n


@Pure
def even(n: int) -> bool:
    Requires(n >= 0)
    Decreases(n)
    return True if n == 0 else odd(n - 1)


@Pure
def odd(n: int) -> bool:
    Requires(n >= 0)
    Decreases(n)
    return False if n == 0 else even(n - 1)


@Pure
def even_bad(n: int) -> bool:
    Requires(n >= 0)
    Decreases(n)
    #:: ExpectedOutput(termination.failed:tuple.false)
    return True if n == 0 else odd_bad(n)


@Pure
def odd_bad(n: int) -> bool:
    Requires(n >= 0)
    Decreases(n)
    return False if n == 0 else even_bad(n - 1)


@Pure
def below(n: int) -> int:
    Decreases(n)
    #:: ExpectedOutput(termination.failed:tuple.false)
    return 0 if n == 0 else below(n - 1)


@Pure
def star(n: int) -> int:
    Decreases(None)
    return star(n + 1)


@Pure
def up(n: int, m: int) -> int:
    Requires(n <= m)
    Decreases(m - n)
    return n if n == m else up(n + 1, m)


@Pure
def up_bad(n: int, m: int) -> int:
    Requires(n <= m)
    Decreases(m - n)
    #:: ExpectedOutput(termination.failed:tuple.false)
    return n if n == m else up_bad(n, m)
