"""One corpus program: translate it with the repository's translator, decide every emitted member with the
symbolic executor, convert the failures with the repository's error conversion, and compare with what must come out.

What must come out is written in the program itself (`#:: ExpectedOutput(<id>)` before the offending line, the
convention of the repository's own suite); a program without annotations must verify completely.
"""
import ast
import os
import re
import signal
import time
import tokenize
import traceback

from . import verify as VF, vexec

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORPUS = os.path.join(HERE, 'corpus')
_ANN = re.compile(r'(?P<type>\w+)\((?P<args>.*)\)\s*$')


class CaseTimeout(BaseException):
    pass


def annotations(path):
    """[(target line, id, [via lines])], [(optional line, id)], flags"""
    must, may, labels, flags = [], [], {}, set()
    pend = []
    with open(path, 'rb') as fp:
        for t in tokenize.tokenize(fp.readline):
            if t.type != tokenize.COMMENT or not t.string.startswith('#::'):
                continue
            line = t.start[0] + 1
            for alt in t.string[3:].split('|'):
                m = _ANN.match(alt.strip())
                if not m:
                    flags.add(alt.strip())
                    continue
                ty, args = m.group('type'), m.group('args')
                if args.startswith('carbon)') or args.startswith('silicon)'):
                    be, args = args.split(')(', 1)
                    if be == 'carbon':
                        continue
                parts = [x.strip() for x in args.split(',')]
                pend.append((ty, line, parts))
    for ty, line, parts in pend:
        if ty == 'Label':
            labels[parts[0]] = line
    for ty, line, parts in pend:
        if ty == 'ExpectedOutput':
            must.append((line, parts[0], [labels[l] for l in parts[1:]]))
        elif ty == 'UnexpectedOutput':
            may.append((line, parts[0]))
        elif ty == 'MissingOutput':
            may.append((line, parts[0]))
        elif ty.startswith('Ignore'):
            flags.add('ignore')
    # a MissingOutput annotation withdraws the ExpectedOutput at the same place
    must = [m for m in must if (m[0], m[1]) not in may]
    return must, may, flags


def translate_options(rel):
    """per-directory options (the repository's own suite derives them from the path in the same way)"""
    kw = {}
    path = os.path.join(CORPUS, rel)
    kw['base_dir'] = os.path.join(CORPUS, *rel.split('/')[:3]) if rel.startswith('repo/') else os.path.dirname(path)
    if '/float_real/' in rel:
        kw['float_encoding'] = 'real'
    elif '/float_ieee32/' in rel:
        kw['float_encoding'] = 'ieee32'
    if '/select/' in rel:
        kw['selected'] = set(os.path.basename(rel)[:-3].split('-'))
    with open(path) as f:
        m = re.search(r'^# *case: *(.*)$', f.read(), re.M)
    if m:
        for kv in m.group(1).split():
            k, v = kv.split('=')
            if k in ('bv_size',):
                kw[k] = int(v)
            elif k in ('float_encoding',):
                kw[k] = v
            elif k == 'ignore_obligations':
                kw[k] = bool(int(v))
            elif k == 'selected':
                kw[k] = set(v.split(','))
    return kw


_MYPY = re.compile(r'^(?P<file>[^:]*):(?P<line>\d+):.*?error: (?P<msg>.*)$')


def rejection(e):
    """(line, id) list for a refused program"""
    n = type(e).__name__
    if n == 'InvalidProgramException':
        return [(getattr(e.node, 'lineno', -1), 'invalid.program:' + e.code)]
    if n == 'UnsupportedException':
        return [(getattr(e.node, 'lineno', -1), 'unsupported:' + str(e.desc))]
    if n == 'ConsistencyException':
        return [(-1, 'consistency')]
    out = []
    for msg in e.messages:
        m = _MYPY.match(msg)
        if m:
            out.append((int(m.group('line')), 'type.error:' + m.group('msg')))
    return sorted(set(out)) or [(-1, 'type.error')]


def warm():
    """load everything that does not depend on the program, so that a forked worker per program starts quickly and
    every program is decided from the same solver state"""
    path = os.path.join(VF.scratch(), 'warm.py')
    with open(path, 'w') as f:
        f.write('def f(a: int) -> int:\n    return a\n')
    VF.translate(path)


def quiet_lines(path, lines):
    """lines of the statements whose failure is expected (no second opinions are needed there)"""
    out = set(lines)
    try:
        tree = ast.parse(open(path).read())
    except SyntaxError:
        return out
    for n in ast.walk(tree):
        if isinstance(n, ast.stmt) and n.lineno in lines and not hasattr(n, 'body'):
            out.update(range(n.lineno, n.end_lineno + 1))
    return out


def run(rel, rlimit=3_000_000, member_timeout=100, retries=2, case_timeout=300, only=None, seed=0):
    """outcome of one program"""
    path = os.path.join(CORPUS, rel)
    t0 = time.time()
    must, may, flags = annotations(path)
    quiet = quiet_lines(path, {x[0] for x in must})
    res = {'rel': rel, 'status': 'ok', 'errors': [], 'undecided': [], 'stats': {}, 'members': 0, 'detail': []}

    def onalarm(*a):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(case_timeout))
    try:
        try:
            kw = translate_options(rel)
            io = kw.pop('ignore_obligations', None)
            VF.fakejvm.install()
            from nagini_translation.lib import config
            if io:
                config.obligation_config._info['disable_all'] = True
            r = VF.translate(path, keep_obligation_config=bool(io), **kw)
        except VF.Rejected as e:
            res['status'] = 'rejected'
            res['errors'] = [(l, i, []) for l, i in rejection(e.exc)]
            return res
        except CaseTimeout:
            raise
        except Exception:
            res['status'] = 'crash'
            res['trace'] = traceback.format_exc()[-3000:]
            return res
        if r is None:
            res['status'] = 'crash'
            res['trace'] = 'translation returned nothing (inconsistent Viper program)'
            return res
        res['t_translate'] = time.time() - t0
        modules, prog = r[0], r[1]
        o = VF.verify_program(prog, modules, None, rlimit=rlimit, member_timeout=member_timeout, retries=retries,
                              quiet_lines=quiet, only=only, seed=seed)
        res['errors'] = sorted(o.errors3)
        res['undecided'] = o.undecided
        res['stats'] = o.stats
        res['members'] = o.members
        reach, dead = set(), set()
        for n, (l, ls, live) in o.lines.items():
            reach.update(ls)
            if live is False:
                dead.add(l)
        res['reach'], res['dead'] = sorted(reach), sorted(dead)
        res['member_names'] = o.member_names
        res['detail'] = [(m, err.pos().line() if hasattr(err.pos(), 'line') else -1, err.full_id, repr(f)[:600])
                         for m, f, err in o.failures]
        return res
    except (VF.vexec.z3.Z3Exception, VF.vexec.IllFormed):
        # the emitted program is not well typed
        res['status'] = 'crash'
        res['trace'] = traceback.format_exc()[-3000:]
        return res
    except CaseTimeout:
        res['undecided'] = res['undecided'] + [('*', 'case timeout %ds' % case_timeout)]
        return res
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        res['wall'] = time.time() - t0
