from nagini_contracts.contracts import *
from nagini_contracts.obligations import *
from nagini_contracts.thread import Thread, MayStart, getArg, getMethod, arg, getOld, ThreadPost, Joinable

def noop() -> None:
    pass

def getter(t: Thread) -> None:
    Requires(MayStart(t))
    Ensures(MayStart(t))
    pass

def getter2(t: Thread) -> None:
    Requires(Acc(ThreadPost(t)))
    Ensures(Acc(ThreadPost(t)))
    pass

def half(t: Thread, u: Thread) -> None:
    Requires(getMethod(t) == getter and getArg(t, 0) is u and t is not u)
    Requires(Acc(ThreadPost(t), 1/2))
    Requires(WaitLevel() < Level(t))
    t.join(getter)
    #:: ExpectedOutput(assert.failed:insufficient.permission)
    Assert(MayStart(u))

def half2(t: Thread, u: Thread) -> None:
    Requires(getMethod(t) == getter2 and getArg(t, 0) is u and t is not u)
    Requires(Acc(ThreadPost(t), 1/2))
    Requires(WaitLevel() < Level(t))
    t.join(getter2)
    #:: ExpectedOutput(assert.failed:insufficient.permission)
    Assert(Acc(ThreadPost(u)))

class C:
    def __init__(self) -> None:
        Ensures(MayCreate(self, 'f'))

    def late(self) -> None:
        Requires(MaySet(self, 'f'))
        self.f = 3

glob = 3  # type: int

def ms(c: C) -> None:
    Requires(MayCreate(c, 'f'))
    Ensures(MayCreate(c, 'f'))
    pass

def ms2(c: C) -> None:
    Requires(MaySet(c, 'f'))
    Ensures(MaySet(c, 'f'))
    pass

def setglob() -> None:
    global glob
    Requires(Acc(glob))
    glob = 4


def gl() -> None:
    Requires(Acc(glob))
    Ensures(Acc(glob))
    pass


def half3(t: Thread, u: C) -> None:
    Requires(getMethod(t) == ms and getArg(t, 0) is u)
    Requires(Acc(ThreadPost(t), 1/2))
    Requires(WaitLevel() < Level(t))
    t.join(ms)
    #:: ExpectedOutput(assert.failed:insufficient.permission)
    Assert(MayCreate(u, 'f'))

def half4(t: Thread, u: C) -> None:
    Requires(getMethod(t) == ms2 and getArg(t, 0) is u)
    Requires(Acc(ThreadPost(t), 1/2))
    Requires(WaitLevel() < Level(t))
    t.join(ms2)
    #:: ExpectedOutput(assert.failed:insufficient.permission)
    Assert(MaySet(u, 'f'))

def half5(t: Thread) -> None:
    Requires(getMethod(t) == gl)
    Requires(Acc(ThreadPost(t), 1/2))
    Requires(WaitLevel() < Level(t))
    t.join(gl)
    #:: ExpectedOutput(assert.failed:insufficient.permission)
    Assert(Acc(glob, 3/4))

def full5(t: Thread) -> None:
    Requires(getMethod(t) == gl)
    Requires(Acc(ThreadPost(t)))
    Requires(WaitLevel() < Level(t))
    t.join(gl)
    Assert(Acc(glob))
