from nagini_contracts.contracts import *
from nagini_contracts.obligations import *
from nagini_contracts.io_contracts import *
from nagini_contracts.lock import Lock


class Cell:
    def __init__(self) -> None:
        self.value = 0  # type: int
        Ensures(Acc(self.value) and self.value == 0)


class CellLock(Lock[Cell]):
    @Predicate
    def invariant(self) -> bool:
        return Acc(self.get_locked().value)


def do_release(l: CellLock) -> None:
    Requires(l is not None)
    Requires(MustRelease(l, 2))
    Requires(Acc(l.get_locked().value))
    l.release()


def do_release_if(b: bool, l: CellLock) -> None:
    Requires(l is not None)
    Requires(Implies(b, MustRelease(l, 2)))
    Requires(Implies(b, Acc(l.get_locked().value)))
    if b:
        l.release()


#:: ExpectedOutput(leak_check.failed:method_body.leaks_obligations)
def leak(l: CellLock) -> None:
    Requires(l is not None)
    Requires(MustRelease(l, 2))
    Requires(Acc(l.get_locked().value))


#:: ExpectedOutput(leak_check.failed:method_body.leaks_obligations)
def leak_on_one_path(b: bool, l: CellLock) -> None:
    Requires(l is not None)
    Requires(MustRelease(l, 2))
    Requires(Acc(l.get_locked().value))
    if b:
        l.release()


#:: ExpectedOutput(leak_check.failed:method_body.leaks_obligations)
def leak_conditional(b: bool, c: bool, l: CellLock) -> None:
    Requires(l is not None)
    Requires(Implies(b, MustRelease(l, 2)))
    Requires(Implies(b, Acc(l.get_locked().value)))
    if b and c:
        l.release()


def no_leak_conditional(b: bool, l: CellLock) -> None:
    Requires(l is not None)
    Requires(Implies(b, MustRelease(l, 3)))
    Requires(Implies(b, Acc(l.get_locked().value)))
    do_release_if(b, l)


def keep_conditional(b: bool, l: CellLock) -> None:
    Requires(l is not None)
    Requires(Implies(b, MustRelease(l, 3)))
    Requires(Implies(b, Acc(l.get_locked().value)))
    Ensures(Implies(b, MustRelease(l, 3)))
    Ensures(Implies(b, Acc(l.get_locked().value)))
    do_nothing()


def do_nothing() -> None:
    Requires(MustTerminate(1))


def unbounded_fresh(l: CellLock) -> None:
    Requires(l is not None)
    Requires(MustRelease(l))
    Requires(Acc(l.get_locked().value))
    #:: ExpectedOutput(call.precondition:insufficient.permission)|OptionalOutput(leak_check.failed:method_body.leaks_obligations)
    unbounded_fresh(l)


def unbounded_fresh_if(b: bool, l: CellLock) -> None:
    Requires(l is not None)
    Requires(Implies(b, MustRelease(l)))
    Requires(Implies(b, Acc(l.get_locked().value)))
    if b:
        #:: ExpectedOutput(call.precondition:insufficient.permission)|OptionalOutput(leak_check.failed:method_body.leaks_obligations)
        unbounded_fresh_if(b, l)


def same_measure(n: int, l: CellLock) -> None:
    Requires(l is not None)
    Requires(n > 0)
    Requires(MustRelease(l, n))
    Requires(Acc(l.get_locked().value))
    #:: ExpectedOutput(call.precondition:insufficient.permission)|OptionalOutput(leak_check.failed:method_body.leaks_obligations)
    same_measure(n, l)


def smaller_measure(n: int, l: CellLock) -> None:
    Requires(l is not None)
    Requires(n > 1)
    Requires(MustRelease(l, n))
    Requires(Acc(l.get_locked().value))
    if n > 2:
        smaller_measure(n - 1, l)
    else:
        l.release()


def negative_measure(n: int, l: CellLock) -> None:
    Requires(l is not None)
    Requires(MustRelease(l, n))
    Requires(Acc(l.get_locked().value))
    #:: ExpectedOutput(call.precondition:obligation_measure.non_positive)|OptionalOutput(leak_check.failed:method_body.leaks_obligations)
    negative_measure(n - 1, l)


def twice(l: CellLock) -> None:
    Requires(l is not None)
    Requires(MustRelease(l, 3))
    Requires(Acc(l.get_locked().value))
    do_release(l)
    #:: ExpectedOutput(call.precondition:insufficient.permission)
    do_release(l)


#:: ExpectedOutput(leak_check.failed:method_body.leaks_obligations)
def leak_before_call(l: CellLock) -> None:
    Requires(l is not None)
    Requires(WaitLevel() < Level(l))
    l.acquire()
    do_nothing()


def acquire_release(l: CellLock) -> None:
    Requires(l is not None)
    Requires(WaitLevel() < Level(l))
    l.acquire()
    c = l.get_locked()  # type: Cell
    c.value = 4
    l.release()


def nonterminating() -> None:
    Requires(True)


def leak_at_call(l: CellLock) -> None:
    Requires(l is not None)
    Requires(WaitLevel() < Level(l))
    l.acquire()
    #:: ExpectedOutput(leak_check.failed:caller.has_unsatisfied_obligations)
    nonterminating()
    l.release()


def leak_at_loop(l: CellLock, n: int) -> None:
    Requires(l is not None)
    Requires(WaitLevel() < Level(l))
    l.acquire()
    i = 0
    #:: ExpectedOutput(leak_check.failed:loop_context.has_unsatisfied_obligations)
    while i < n:
        i += 1
    l.release()


def no_leak_at_loop(l: CellLock, n: int) -> None:
    Requires(l is not None)
    Requires(WaitLevel() < Level(l))
    l.acquire()
    i = 0
    while i < n:
        Invariant(MustTerminate(n - i))
        i += 1
    l.release()


def loop_measure_not_decreasing(l: CellLock, n: int) -> None:
    Requires(l is not None)
    Requires(WaitLevel() < Level(l))
    l.acquire()
    i = 0
    #:: ExpectedOutput(leak_check.failed:must_terminate.loop_promise_not_kept)
    while i < n:
        Invariant(MustTerminate(n - i))
        i += 0
    l.release()
