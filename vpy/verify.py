"""translate a Python file with the repository's translator, decide the resulting Viper program with the symbolic
executor, and convert failures with the repository's own error conversion."""
import os
import re
import shutil
import tempfile
import time
import traceback

from . import fakejvm, vast as V, vexec


class _Cls:
    def __init__(self, n): self.n = n
    def getSimpleName(self): return self.n


class FakeReason:
    def __init__(self, rid, node): self.rid, self.node = rid, node
    def id(self): return self.rid
    def offendingNode(self): return self.node
    def readableMessage(self): return 'reason %s: %s' % (self.rid, V.pp(self.node))


class FakeError:
    """what silver's AbstractVerificationError offers to lib/errors"""

    def __init__(self, f, simple='VerificationError'):
        self.f, self.simple = f, simple

    def getClass(self): return _Cls(self.simple)
    def id(self): return self.f.kind
    def reason(self): return FakeReason(self.f.reason, self.f.node)
    def offendingNode(self): return self.f.stmt
    def pos(self): return self.f.stmt._pos
    def failureContexts(self): return V.ScalaSeq()
    def text(self): return '%s %s' % (self.f.kind, V.pp(self.f.stmt))
    def readableMessage(self): return self.text() + ' ' + self.reason().readableMessage()

    def transformedError(self):
        """apply error transformations attached to the offending nodes (not used by the plain pipeline)"""
        return self


class Rejected(Exception):
    def __init__(self, exc):
        super().__init__(str(exc))
        self.exc = exc


_scratch = None


def scratch():
    """mypy writes caches to the cwd: keep them (and any other output) in a private directory"""
    global _scratch
    if _scratch is None or not os.path.isdir(_scratch) or _scratch_pid != os.getpid():
        _new()
    return _scratch


def _new():
    """the first process owns the directory and removes it at exit; forked workers get a sub-directory of it, with
    a copy of the type checker's cache"""
    global _scratch, _scratch_pid
    import atexit
    parent = _scratch if _scratch and os.path.isdir(_scratch) else None
    _scratch = tempfile.mkdtemp(prefix='vpy.', dir=parent)
    _scratch_pid = os.getpid()
    if parent:
        for c in os.listdir(parent):
            if c.startswith('.mypy_cache'):
                shutil.copytree(os.path.join(parent, c), os.path.join(_scratch, c))
        return
    d = _scratch
    atexit.register(lambda: os.getpid() == _scratch_pid and shutil.rmtree(d, ignore_errors=True))


_last_key = []


def translate(path, **kw):
    """run the real translation pipeline; raises Rejected for programs nagini refuses"""
    jvm = fakejvm.install()
    import nagini_translation.main as main
    from nagini_translation.lib import config
    from nagini_translation.lib.typeinfo import TypeException
    from nagini_translation.lib.util import InvalidProgramException, UnsupportedException, ConsistencyException
    path = os.path.abspath(path)
    cwd = os.getcwd()
    os.chdir(scratch())
    if not kw.pop('keep_obligation_config', False):
        config.obligation_config._info.pop('disable_all', None)
    kw.setdefault('sif', False)
    kw.setdefault('bv_size', 8)
    bv = kw.pop('bv_size')
    key = (bv, kw['sif'], kw.get('float_encoding'))
    if _last_key and _last_key[0] != key:
        main.__dict__.pop('sil_programs', None)     # what the service does when these options change
    _last_key[:] = [key]
    try:
        return main.translate(path, jvm, bv, **kw)
    except (TypeException, InvalidProgramException, UnsupportedException, ConsistencyException) as e:
        raise Rejected(e)
    finally:
        os.chdir(cwd)


class Outcome:
    def __init__(self):
        self.errors = []          # (line, full_id) in nagini terms
        self.errors3 = set()      # (line, full_id, via lines)
        self.member_names = []
        self.lines = {}           # method -> (source line, lines reached, some end feasible?)
        self.failures = []
        self.stats = {}
        self.members = 0
        self.wall = 0
        self.undecided = []


def verify_program(prog, modules, jvm, only=None, functions=True, rlimit=4_000_000, timeout_s=None, skip_ids=(),
                   member_timeout=None, base_functions=None, retries=2, quiet_lines=(), seed=0):
    from nagini_translation.lib.errors import error_manager
    t0 = time.time()
    o = Outcome()
    fails = []

    def isuser(m):
        p = getattr(m, '_pos', None)
        return p is not None and p is not V.NoPosition and not isinstance(p, V.Singleton)
    for kind, coll in (('function', prog._functions), ('predicate', prog._predicates), ('method', prog._methods)):
        for m in coll:
            if only is not None and m._name not in only:
                continue
            if kind == 'method' and not isinstance(m._body, V.Some):
                continue
            if kind != 'method' and (not functions or not isuser(m)):
                continue
            if kind == 'function' and not isinstance(m._body, V.Some):
                continue
            ex = vexec.Executor(prog, rlimit=rlimit, timeout_s=member_timeout, retries=retries, quiet_lines=quiet_lines,
                                seed=seed)
            try:
                fs = getattr(ex, kind)(m._name)
            except (vexec.Unsupported, TimeoutError) as e:
                o.undecided.append((m._name, '%s: %s' % (type(e).__name__, e)))
                fs = ex.dedupe()
            if kind == 'method':
                o.lines[m._name] = (member_line(m), sorted(ex.lines), ex.live)
            fails.extend((m._name, f) for f in fs)
            o.members += 1
            o.member_names.append(m._name)
            for k, v in ex.stats.items():
                o.stats[k] = o.stats.get(k, 0) + v
    for mn, f in fails:
        err = error_manager.convert([FakeError(f)], None, modules, False)[0]
        o.failures.append((mn, f, err))
        pos = err.pos()
        line = pos.line() if hasattr(pos, 'line') else -1
        o.errors.append((line, err.full_id))
        o.errors3.add((line, err.full_id, tuple(vias_of(err))))
    o.errors = sorted(set(o.errors))
    o.wall = time.time() - t0
    return o


def member_line(m):
    try:
        return m._pos.line()
    except Exception:
        return -1


def vias_of(err):
    from nagini_translation.lib.errors import error_manager
    for p in (err.reason.position, err.position):
        if getattr(p, 'node_id', None):
            v = error_manager.get_vias(p.node_id)
            if v or p is err.position:
                return [x[1].line() for x in v or ()]
    return []


def verify(path, **kw):
    tk = {k: kw.pop(k) for k in list(kw) if k in ('sif', 'selected', 'base_dir', 'ignore_global', 'arp', 'bv_size',
                                                  'float_encoding', 'counterexample', 'ignore_obligations')}
    r = translate(path, **tk)
    modules, prog = r[0], r[1]
    return verify_program(prog, modules, None, **kw)
