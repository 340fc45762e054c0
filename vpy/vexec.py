"""Symbolic executor / verifier for Viper programs (the programs the real translator emits), deciding every
proof obligation with z3.  Plays the role of the Viper back end, which is not available in the sandbox.

Heap = tuple of chunks per resource; snapshots as in Silicon; pure and heap-dependent functions are axiomatised
lazily.  A failed or undecided obligation is recorded as a Failure carrying the Viper error/reason ids, so it can
be sent through the repository's own error conversion.
"""
import itertools
import sys
import time

import z3

from . import vast as V
from .theories import Theories, BoolS, IntS, RealS, RefS, SnapS, NULL, UNIT, FA

sys.setrecursionlimit(100000)
N1, N0 = z3.RealVal(1), z3.RealVal(0)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class PathEnd(Exception):
    """the current symbolic path stops here (error or proven infeasible)"""


class IllFormed(Exception):
    """the emitted program refers to something it does not declare"""


class Table(dict):
    def __missing__(self, k):
        raise IllFormed('the emitted Viper program does not declare %s' % k)


class Unsupported(Exception):
    pass


class Failure:
    def __init__(self, kind, stmt, reason, node, path=()):
        self.kind, self.stmt, self.reason, self.node, self.path = kind, stmt, reason, node, path

    @property
    def key(self):
        def p(n):
            q = getattr(n, '_pos', None)
            if q is None or q is V.NoPosition:
                return -1
            return (q.line(), q.column())
        return self.kind, self.reason, p(self.stmt), p(self.node)

    def __repr__(self):
        return 'Failure(%s:%s @%s node=%s)' % (self.kind, self.reason, self.key[2], V.pp(self.node)[:100])


class Chunk:
    __slots__ = ('args', 'perm', 'val', 'q', 'pf', 'vf')

    def __init__(self, args, perm, val, q=False, pf=None, vf=None):
        self.args, self.perm, self.val, self.q, self.pf, self.vf = args, perm, val, q, pf, vf

    def p(self, args):
        if self.q:
            return self.pf(args)
        return ite(eqs(self.args, args), self.perm, N0)

    def v(self, args):
        return self.vf(args) if self.q else self.val


def mkand(l):
    l = [x for x in l if not z3.is_true(x)]
    if any(z3.is_false(x) for x in l):
        return FALSE
    return TRUE if not l else l[0] if len(l) == 1 else z3.And(l)


def mkor(l):
    l = [x for x in l if not z3.is_false(x)]
    if any(z3.is_true(x) for x in l):
        return TRUE
    return FALSE if not l else l[0] if len(l) == 1 else z3.Or(l)


def mknot(a):
    if z3.is_true(a): return FALSE
    if z3.is_false(a): return TRUE
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)


def implies(a, b):
    if z3.is_true(a): return b
    if z3.is_false(a) or z3.is_true(b): return TRUE
    return z3.Implies(a, b)


def ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    return z3.If(c, a, b)


def eqs(a, b):
    out = []
    for x, y in zip(a, b):
        if x.eq(y):
            continue
        if (z3.is_int_value(x) or z3.is_rational_value(x)) and (z3.is_int_value(y) or z3.is_rational_value(y)):
            return FALSE
        out.append(x == y)
    return mkand(out)


def add(a, b):
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        return z3.simplify(a + b)
    if z3.is_rational_value(a) and a.as_fraction() == 0: return b
    if z3.is_rational_value(b) and b.as_fraction() == 0: return a
    return a + b


def sub(a, b):
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        return z3.simplify(a - b)
    if z3.is_rational_value(b) and b.as_fraction() == 0: return a
    if a.eq(b): return N0
    return a - b


def isval(p, f):
    return z3.is_rational_value(p) and f(p.as_fraction())


def zmin(a, b):
    if a.eq(b): return a
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        return a if a.as_fraction() <= b.as_fraction() else b
    return z3.If(a <= b, a, b)


def annotated(info, key):
    t = type(info).__name__
    if t == 'ConsInfo':
        return annotated(info._head, key) or annotated(info._tail, key)
    return t == 'AnnotationInfo' and info._values.contains(key)


class State:
    __slots__ = ('store', 'heap', 'olds', 'trace', 'pend')

    def __init__(self, store=None, heap=None, olds=None, trace=(), pend=()):
        self.store, self.heap, self.olds, self.trace = store or {}, heap or {}, olds or {}, trace
        self.pend = pend      # loops left textually by a goto but possibly re-entered

    def copy(self):
        return State(dict(self.store), dict(self.heap), dict(self.olds), self.trace, self.pend)


class Kont:
    """continuation frame: rest of a statement list, then `nxt`"""
    __slots__ = ('stmts', 'i', 'nxt', 'kind', 'data')

    def __init__(self, stmts, i, nxt, kind='seq', data=None):
        self.stmts, self.i, self.nxt, self.kind, self.data = stmts, i, nxt, kind, data


class Executor:
    def __init__(self, program, rlimit=4_000_000, timeout_s=None, feas_rlimit=300_000, log=None, seed=0, retries=2, quiet_lines=()):
        self.prog = program
        self.rlimit, self.feas_rlimit = rlimit, feas_rlimit
        self.log = log
        self.stats = dict(queries=0, proved=0, refuted=0, unknown=0, paths=0, solver_s=0.0, feas=0)
        self.deadline = time.time() + timeout_s if timeout_s else None
        self.axioms = []
        self.members()
        s = self.solver = z3.SimpleSolver()
        s.set('auto_config', False)
        s.set('mbqi', False)
        s.set('random_seed', seed)
        s.set('case_split', 3)
        s.set('delay_units', True)
        s.set('arith.solver', 2)
        s.set('qi.eager_threshold', 100.0)
        s.set('qi.max_multi_patterns', 1000)
        s.set('restart_strategy', 0)
        s.set('restart_factor', 1.5)
        self.ax_done = 0
        self.stack = []
        self.known = {}
        self.known_log = []
        self.th = Theories(self.emit)
        self.ctr = itertools.count()
        self.guards = []
        self.retries = retries
        self.quiet_lines = quiet_lines
        self.qstack = []      # list of lists collecting facts inside quantifier bodies
        self.checking = True
        self.failures = []
        self.lines, self.live, self.ends = set(), None, 0
        self.cur = ('?', None)
        self.fdecl = {}
        self.flim = {}
        self.fpre = {}
        self.frev = {}
        self.trigs = None
        self.term = None
        self.fun_mode = False
        self.pch = None
        self.nests = []
        self.nest = None
        self.nofacts = False
        self.pending = []
        self.in_pump = False
        self.dom_inst = set()
        self.in_func = None
        self.flen = {}

    # ------------------------------------------------------------------ members
    def members(self):
        p = self.prog
        self.functions = Table((f._name, f) for f in p._functions)
        self.predicates = Table((f._name, f) for f in p._predicates)
        self.methods = Table((f._name, f) for f in p._methods)
        self.fields = Table((f._name, f) for f in p._fields)
        self.dfuncs = {}
        self.domains = {}
        for d in p._domains:
            self.domains[d._name] = d
            for f in d._functions:
                self.dfuncs[f._name] = (d, f)
        self.dom_ax = {}
        for d in p._domains:
            for a in d._axioms:
                names = {x._funcname for x in V.walk(a._exp) if type(x).__name__ == 'DomainFuncApp'}
                for n in names:
                    self.dom_ax.setdefault(n, []).append((d, a))
        self.ax_emitted = set()
        self.uniques = {}

    def scc(self):
        """names of functions that are (mutually) recursive"""
        if hasattr(self, '_rec'):
            return self._rec
        g = {}
        for n, f in self.functions.items():
            c = set()
            for part in list(f._posts) + ([f._body.v] if isinstance(f._body, V.Some) else []):
                c |= {x._funcname for x in V.walk(part) if type(x).__name__ == 'FuncApp'}
            # through predicates unfolded in the body: functions never occur recursively there in practice
            g[n] = c & set(self.functions)
        reach = {}

        def go(n):
            seen, st = set(), list(g[n])
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x)
                st.extend(g[x])
            return seen
        for n in g:
            reach[n] = go(n)
        self._rec = {n: {m for m in reach[n] if n in reach[m]} if n in reach[n] else set() for n in g}
        return self._rec

    # ------------------------------------------------------------------ solver plumbing
    def emit(self, ax):
        self.axioms.append(ax)

    def pump(self):
        """translate pending function/domain axioms, assert everything new at the current level"""
        if not self.in_pump:
            self.in_pump = True
            try:
                while self.pending:
                    self.pending.pop()()
            finally:
                self.in_pump = False
        while self.ax_done < len(self.axioms):
            self.solver.add(self.axioms[self.ax_done])
            self.ax_done += 1

    def push(self):
        self.pump()
        self.solver.push()
        self.stack.append((self.ax_done, len(self.known_log)))

    def pop(self):
        self.solver.pop()
        self.ax_done, n = self.stack.pop()
        while len(self.known_log) > n:
            k = self.known_log.pop()
            del self.known[k]

    def learn(self, t):
        if z3.is_and(t):
            for c in t.children():
                self.learn(c)
            return
        k = t.get_id()
        if k not in self.known:
            self.known[k] = t
            self.known_log.append(k)

    def assume(self, t):
        if z3.is_true(t):
            return
        if self.guards:
            base = self.qstack[-1][1] if self.qstack else 0
            t2 = implies(mkand(self.guards[base:]), t)
        else:
            t2 = t
        if self.qstack:
            self.qstack[-1][0].append(t2)
            return
        if t2.get_id() in self.known:
            return
        self.pump()
        self.solver.add(t2)
        self.learn(t2)

    def _check(self, extra, rlimit):
        self.pump()
        if self.deadline and time.time() > self.deadline:
            raise TimeoutError('executor deadline')
        self.solver.set('rlimit', rlimit)
        t0 = time.time()
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
        finally:
            self.solver.pop()
        dt = time.time() - t0
        self.stats['solver_s'] += dt
        if self.log and dt > 2:
            self.log('slow query %.1fs %s' % (dt, r))
        return r

    def prove(self, t, rlimit=None):
        if z3.is_true(t):
            return True
        if z3.is_and(t):
            return all(self.prove(c, rlimit) for c in t.children())
        if t.get_id() in self.known:
            return True
        for g in self.guards:
            if g.eq(t):
                return True
        self.stats['queries'] += 1
        ex = list(self.guards) + [f for q in self.qstack for f in q[0]] + [mknot(t)]
        r = self._check(ex, rlimit or self.rlimit)
        if r == z3.unsat:
            self.stats['proved'] += 1
            if not self.qstack and not self.guards:
                self.assume(t)
            return True
        if r == z3.unknown:
            self.stats['unknown'] += 1
            if rlimit is None and self.retries and not self.expected_here():
                if self.retry(ex):
                    if not self.qstack and not self.guards:
                        self.assume(t)
                    return True
        else:
            self.stats['refuted'] += 1
        return False

    def expected_here(self):
        """is a failure of the current statement expected (then a second opinion would be wasted)?"""
        if not self.quiet_lines:
            return False
        for n in self.cur:
            p = getattr(n, '_pos', None)
            try:
                if p is not None and p.line() in self.quiet_lines:
                    return True
            except Exception:
                pass
        return False

    def retry(self, ex):
        """second opinions from fresh solvers with different seeds and heuristics"""
        for i in range(self.retries):
            if self.deadline and time.time() > self.deadline:
                raise TimeoutError('executor deadline')
            s = z3.SimpleSolver() if i % 2 else z3.Solver()
            s.set('smt.mbqi' if False else 'mbqi', False)
            s.set('auto_config', False)
            s.set('random_seed', 11 + i)
            s.set('arith.solver', 2 if i % 2 else 6)
            s.set('case_split', 3 if i % 2 == 0 else 1)
            s.set('qi.eager_threshold', 100.0 if i < 2 else 30.0)
            s.set('qi.max_multi_patterns', 1000)
            s.set('rlimit', self.rlimit * 3)
            s.add(*self.solver.assertions())
            s.add(*ex)
            t0 = time.time()
            r = s.check()
            self.stats['solver_s'] += time.time() - t0
            self.stats['retries'] = self.stats.get('retries', 0) + 1
            if r == z3.unsat:
                self.stats['rescued'] = self.stats.get('rescued', 0) + 1
                return True
            if r == z3.sat:
                return False
        return False

    def infeasible(self):
        self.stats['feas'] += 1
        return self._check(list(self.guards), self.feas_rlimit) == z3.unsat

    def fresh(self, name, sort):
        return z3.Const('%s@%d' % (name, next(self.ctr)), sort)

    # ------------------------------------------------------------------ failure handling
    def fail(self, reason, node):
        kind, stmt = self.cur
        self.failures.append(Failure(kind, stmt, reason, node))
        raise PathEnd()

    def require(self, t, reason, node, rlimit=None):
        if self.checking and not self.prove(t, rlimit):
            if z3.is_true(t):
                return
            self.fail(reason, node)

    # ------------------------------------------------------------------ functions
    def ret_sort(self, t, tv=None): return self.th.sort(t, tv)

    def interp(self, fn, dom, args):
        """backend-interpreted domain function"""
        i = fn._interpretation
        i = i.v if isinstance(i, V.Some) else i
        i = str(i).strip()
        R = z3.RNE()
        if i.startswith('(_ int2bv'):
            return z3.Int2BV(args[0], int(i.split()[-1].rstrip(')')))
        tbl = {'bv2int': lambda a: z3.BV2Int(a), 'bv2nat': lambda a: z3.BV2Int(a),
               'bvand': lambda a, b: a & b, 'bvor': lambda a, b: a | b, 'bvxor': lambda a, b: a ^ b,
               'bvshl': lambda a, b: a << b, 'bvlshr': lambda a, b: z3.LShR(a, b), 'bvnot': lambda a: ~a,
               'bvadd': lambda a, b: a + b, 'bvsub': lambda a, b: a - b, 'bvashr': lambda a, b: a >> b,
               'to_int': lambda a: z3.ToInt(a), 'to_real': lambda a: z3.ToReal(a),
               '(_ to_fp 8 24)': lambda a: z3.fpBVToFP(a, z3.FPSort(8, 24)),
               '(_ to_fp 8 24) RNE': lambda a: z3.fpRealToFP(R, a, z3.FPSort(8, 24)),
               '(_ NaN 8 24)': lambda: z3.fpNaN(z3.FPSort(8, 24)),
               'fp.add RNE': lambda a, b: z3.fpAdd(R, a, b), 'fp.sub RNE': lambda a, b: z3.fpSub(R, a, b),
               'fp.mul RNE': lambda a, b: z3.fpMul(R, a, b), 'fp.div RNE': lambda a, b: z3.fpDiv(R, a, b),
               'fp.eq': z3.fpEQ, 'fp.geq': z3.fpGEQ, 'fp.gt': z3.fpGT, 'fp.neg': z3.fpNeg, 'fp.leq': z3.fpLEQ,
               'fp.lt': z3.fpLT, 'fp.isNaN': z3.fpIsNaN, 'fp.isInfinite': z3.fpIsInf, 'fp.isZero': z3.fpIsZero, 'fp.to_real': z3.fpToReal, 'fp.abs': z3.fpAbs}
        if i not in tbl:
            raise Unsupported('interpretation ' + i)
        return tbl[i](*args)

    def dom_sort(self, t, tv=None):
        if type(t).__name__ == 'DomainType':
            d = self.domains.get(t._domainName)
            ip = d._interpretations if d is not None else None
            if ip is not None and ip is not V.NONE:
                ip = ip.v if isinstance(ip, V.Some) else ip
                s = str(ip.d.get('SMTLIB')) if isinstance(ip, V.ScalaMap) else str(ip)
                if s.startswith('(_ BitVec'):
                    r = z3.BitVecSort(int(s.split()[-1].rstrip(')')))
                elif s.startswith('(_ FloatingPoint'):
                    r = z3.FPSort(*map(int, s.rstrip(')').split()[2:4]))
                else:
                    raise Unsupported(s)
                self.th.domtypes[t._domainName] = r
                return r
        return self.th.sort(t, tv)

    def tvkey(self, tvmap, tv):
        if not tvmap or not len(getattr(tvmap, 'd', {})):
            return {}
        return {k._name: (tv[v._name] if isinstance(v, V.TypeVar) and tv and v._name in tv else self.dom_sort(v, tv))
                for k, v in tvmap.d.items()}

    def domfn(self, name, inst):
        d, f = self.dfuncs[name]
        key = name + (('<%s>' % ','.join('%s=%s' % (k, inst[k].sexpr()) for k in sorted(inst))) if inst else '')
        if key in self.fdecl:
            return self.fdecl[key]
        tv = {v._name: inst.get(v._name, IntS) for v in d._typVars}
        sorts = [self.dom_sort(a._typ, tv) for a in f._formalArgs]
        r = z3.Function(key, *sorts, self.dom_sort(f._typ, tv))
        self.fdecl[key] = r
        if f._unique:
            n = self.uniques.setdefault(str(r.range().sexpr()), [])
            u = z3.Function('$uniq<%s>' % r.range().sexpr(), r.range(), IntS)
            n.append(key)
            self.emit(u(r()) == len(n))
        for (dd, a) in self.dom_ax.get(name, ()):
            k = (dd._name, id(a), tuple(sorted((x, str(s.sexpr())) for x, s in tv.items())) if dd is d else None)
            if k in self.ax_emitted:
                continue
            self.ax_emitted.add(k)
            self.pending.append(lambda dd=dd, a=a, tv=tv: self.axiom(dd, a, tv))
        return r

    def axiom(self, d, a, tv):
        save = self.enter_pure()
        try:
            self.tv = tv
            t = self.ev(a._exp, State())
        finally:
            self.leave_pure(save)
        self.emit(t)

    tv = None

    def enter_pure(self):
        s = (self.checking, self.guards, self.qstack, self.tv, self.in_func)
        self.checking, self.guards, self.qstack, self.tv = False, [], [], None
        return s

    def leave_pure(self, s):
        self.checking, self.guards, self.qstack, self.tv, self.in_func = s

    def heapdep(self, f):
        return any(not p.isPure() for p in f._pres)

    def fn(self, name):
        if name in self.fdecl:
            return self.fdecl[name]
        f = self.functions[name]
        sorts = [self.dom_sort(a._typ) for a in f._formalArgs]
        r = self.dom_sort(f._typ)
        hd = self.heapdep(f)
        d = z3.Function(name, *(([SnapS] if hd else []) + sorts + [r]))
        self.fdecl[name] = d
        self.fpre[name] = z3.Function(name + '%pre', *(([SnapS] if hd else []) + sorts + [BoolS]))
        if annotated(f._info, 'opaque'):
            self.frev[name] = z3.Function(name + '%reveal', *(([SnapS] if hd else []) + sorts + [BoolS]))
        if self.scc()[name]:
            self.flim[name] = z3.Function(name + '%limited', *(([SnapS] if hd else []) + sorts + [r]))
        self.pending.append(lambda: self.fn_axioms(f, d))
        return d

    def fn_axioms(self, f, d, only_post=False):
        save = self.enter_pure()
        ent = []
        try:
            self.qstack = [(ent, 0)]
            self.in_func = f._name
            args = [self.fresh(a._name, self.dom_sort(a._typ)) for a in f._formalArgs]
            st = State({a._name: t for a, t in zip(f._formalArgs, args)})
            vs = list(args)
            s = None
            if self.heapdep(f):
                s = self.fresh('s', SnapS)
                vs = [s] + vs
            pres = []
            shapes = self.shapes(f._pres)
            for p, sn in self.split_snap(f._pres, s):
                st, ts = self.produce_pure(p, sn, st)
                pres.extend(ts)
            app = d(*vs)
            lim = self.flim.get(f._name)
            out = []
            if ent:
                out.append((app, mkand(list(ent))))
                del ent[:]
            verified = getattr(self, 'fn_order', None)
            if isinstance(f._body, V.Some):
                self.trigs = trigs = []
                body = self.fit(self.ev(f._body.v, st), d.range())
                self.trigs = None
                fx = mkand(list(ent))
                del ent[:]
                eq = app == body
                if f._name in self.frev:
                    eq = implies(self.frev[f._name](*vs), eq)
                out.append((app, mkand([eq, fx])))
                if lim is not None:
                    leq = z3.substitute(eq, (app, lim(*vs)))
                    for tr in trigs:
                        if all(self.subterm(v, tr) or self.subterm(v, lim(*vs)) for v in vs):
                            out.append((z3.MultiPattern(lim(*vs), tr), leq))
            if lim is not None:
                self.emit_q(vs, [app], app == lim(*vs))
            limapp = lim(*vs) if lim is not None else app
            posts = []
            for p in f._posts:
                if type(p).__name__.startswith('Decreases'):
                    continue
                st2 = st.copy()
                st2.store['result'] = limapp
                t = self.ev(p, st2)
                posts.append(mkand([t] + list(ent)))
                del ent[:]
            if posts:
                out.append((limapp, mkand(posts)))
            # as in Silicon: the axioms only speak about applications whose precondition has been established
            hyp = self.fpre[f._name](*vs) if vs else TRUE
            if not vs and len(f._pres):
                hyp = self.fpre[f._name]()
            for trig, t in out:
                # an application can occur only inside its own precondition marker (e.g. as an unused let value)
                self.emit_q(vs, [trig] if lim is not None else [trig, hyp], implies(hyp, t))
        finally:
            self.leave_pure(save)

    def emit_q(self, vs, pats, body):
        if not vs:
            self.emit(body)
        else:
            self.emit(z3.ForAll(vs, body, patterns=pats))

    def shapes(self, asserts):
        return [a for a in asserts if not a.isPure()]

    def split_snap(self, asserts, s):
        """distribute snapshot s over a list of assertions (pure ones get none)"""
        imp = [a for a in asserts if not a.isPure()]
        out = []
        rest = s
        k = 0
        for a in asserts:
            if type(a).__name__.startswith('Decreases'):
                continue
            if a.isPure():
                out.append((a, None))
            else:
                k += 1
                if k == len(imp):
                    out.append((a, rest))
                else:
                    out.append((a, self.th.fst(rest) if rest is not None else None))
                    rest = self.th.snd(rest) if rest is not None else None
        return out

    def join_snaps(self, snaps):
        snaps = [s for s in snaps if s is not None]
        if not snaps:
            return UNIT
        r = snaps[-1]
        for s in reversed(snaps[:-1]):
            r = self.th.mkpair(s, r)
        return r

    # ------------------------------------------------------------------ expression evaluation
    def ev(self, e, st):
        return getattr(self, 'e_' + type(e).__name__)(e, st)

    def with_guard(self, g, fn):
        if z3.is_true(g):
            return fn()
        self.guards.append(g)
        try:
            return fn()
        finally:
            self.guards.pop()

    def e_LocalVar(self, e, st):
        try:
            return st.store[e._name]
        except KeyError:
            if e._name == 'result':
                raise
            v = self.fresh(e._name, self.dom_sort(e._typ, self.tv))
            st.store[e._name] = v
            return v

    def e_Result(self, e, st): return st.store['result']
    def e_IntLit(self, e, st): return z3.IntVal(int(e._i) if not hasattr(e._i, 'v') else e._i.v)
    def e_TrueLit(self, e, st): return TRUE
    def e_FalseLit(self, e, st): return FALSE
    def e_NullLit(self, e, st): return NULL
    def e_FullPerm(self, e, st): return N1
    def e_NoPerm(self, e, st): return N0
    def e_WildcardPerm(self, e, st):
        w = self.fresh('wc', RealS)
        self.assume(w > 0)
        self.assume(w < 1)
        return w
    def e_EpsilonPerm(self, e, st): raise Unsupported('epsilon')

    def e_And(self, e, st):
        a = self.ev(e._left, st)
        if z3.is_false(a):
            return FALSE
        b = self.with_guard(a, lambda: self.ev(e._right, st))
        return mkand([a, b])

    def e_Or(self, e, st):
        a = self.ev(e._left, st)
        if z3.is_true(a):
            return TRUE
        b = self.with_guard(mknot(a), lambda: self.ev(e._right, st))
        return mkor([a, b])

    def e_Implies(self, e, st):
        a = self.ev(e._left, st)
        if z3.is_false(a):
            return TRUE
        b = self.with_guard(a, lambda: self.ev(e._right, st))
        return implies(a, b)

    def e_CondExp(self, e, st):
        c = self.ev(e._cond, st)
        if z3.is_true(c): return self.ev(e._thn, st)
        if z3.is_false(c): return self.ev(e._els, st)
        a = self.with_guard(c, lambda: self.ev(e._thn, st))
        b = self.with_guard(mknot(c), lambda: self.ev(e._els, st))
        return ite(c, a, b)

    def e_Not(self, e, st): return mknot(self.ev(e._exp, st))
    def e_Minus(self, e, st):
        v = self.ev(e._exp, st)
        return z3.IntVal(-v.as_long()) if z3.is_int_value(v) else -v
    def e_PermMinus(self, e, st): return -self.ev(e._exp, st)

    def b2(self, e, st): return self.ev(e._left, st), self.ev(e._right, st)

    def e_Add(self, e, st):
        a, b = self.b2(e, st)
        return a + b

    def e_Sub(self, e, st):
        a, b = self.b2(e, st)
        return a - b

    def e_Mul(self, e, st):
        a, b = self.b2(e, st)
        return a * b

    def e_Div(self, e, st):
        a, b = self.b2(e, st)
        self.require(b != 0, 'division.by.zero', e)
        return a / b

    def e_Mod(self, e, st):
        a, b = self.b2(e, st)
        self.require(b != 0, 'division.by.zero', e)
        return a % b

    def toreal(self, a): return z3.ToReal(a) if a.sort() == IntS else a

    def rdiv(self, e, st):
        a, b = self.b2(e, st)
        self.require(b != 0, 'division.by.zero', e)
        a, b = self.toreal(a), self.toreal(b)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL and z3.is_int_value(a.arg(0)):
            a = z3.RealVal(a.arg(0).as_long())
        if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_TO_REAL and z3.is_int_value(b.arg(0)):
            b = z3.RealVal(b.arg(0).as_long())
        r = a / b
        return z3.simplify(r) if z3.is_rational_value(a) and z3.is_rational_value(b) else r
    e_FractionalPerm = e_PermDiv = e_PermPermDiv = rdiv

    def e_PermAdd(self, e, st):
        a, b = self.b2(e, st)
        return add(a, b)

    def e_PermSub(self, e, st):
        a, b = self.b2(e, st)
        return sub(a, b)

    def e_PermMul(self, e, st):
        a, b = self.b2(e, st)
        a, b = self.toreal(a), self.toreal(b)
        if isval(a, lambda v: v == 1): return b
        if isval(b, lambda v: v == 1): return a
        return a * b
    e_IntPermMul = e_PermMul

    def num(self, a, b):
        if a.sort() != b.sort():
            return self.toreal(a), self.toreal(b)
        return a, b

    def e_LtCmp(self, e, st):
        a, b = self.num(*self.b2(e, st))
        return a < b

    def e_LeCmp(self, e, st):
        a, b = self.num(*self.b2(e, st))
        return a <= b

    def e_GtCmp(self, e, st):
        a, b = self.num(*self.b2(e, st))
        return a > b

    def e_GeCmp(self, e, st):
        a, b = self.num(*self.b2(e, st))
        return a >= b
    e_PermLtCmp, e_PermLeCmp, e_PermGtCmp, e_PermGeCmp = e_LtCmp, e_LeCmp, e_GtCmp, e_GeCmp

    def equal(self, a, b):
        if a.eq(b):
            return TRUE
        if a.sort() != b.sort():
            a, b = self.num(a, b)
        c = self.th.coll(a.sort())
        if c is not None:
            return c.eq(a, b)
        if z3.is_int_value(a) and z3.is_int_value(b):
            return z3.BoolVal(a.as_long() == b.as_long())
        if a.sort() == BoolS:
            if z3.is_true(a): return b
            if z3.is_true(b): return a
            if z3.is_false(a): return mknot(b)
            if z3.is_false(b): return mknot(a)
        return a == b

    def e_EqCmp(self, e, st): return self.equal(*self.b2(e, st))
    def e_NeCmp(self, e, st): return mknot(self.equal(*self.b2(e, st)))

    # collections
    def C(self, t): return self.th.coll(t.sort())

    def e_EmptySeq(self, e, st): return self.th.seq(self.dom_sort(e._elemType, self.tv)).empty
    def e_EmptySet(self, e, st): return self.th.set(self.dom_sort(e._elemType, self.tv)).empty
    def e_EmptyMultiset(self, e, st): return self.th.mset(self.dom_sort(e._elemType, self.tv)).empty
    def e_EmptyMap(self, e, st):
        return self.th.map(self.dom_sort(e._keyType, self.tv), self.dom_sort(e._valueType, self.tv)).empty

    def e_ExplicitSeq(self, e, st):
        ts = [self.ev(x, st) for x in e._elems]
        c = self.th.seq(ts[0].sort())
        r = c.single(ts[0])
        for t in ts[1:]:
            r = c.app(r, c.single(t))
        return r

    def e_ExplicitSet(self, e, st):
        ts = [self.ev(x, st) for x in e._elems]
        c = self.th.set(ts[0].sort())
        r = c.single(ts[0])
        for t in ts[1:]:
            r = c.union(r, c.single(t))
        return r

    def e_ExplicitMultiset(self, e, st):
        ts = [self.ev(x, st) for x in e._elems]
        c = self.th.mset(ts[0].sort())
        r = c.single(ts[0])
        for t in ts[1:]:
            r = c.union(r, c.single(t))
        return r

    def e_ExplicitMap(self, e, st):
        ps = [(self.ev(x._key, st), self.ev(x._value, st)) for x in e._elems]
        c = self.th.map(ps[0][0].sort(), ps[0][1].sort())
        r = c.empty
        for k, v in ps:
            r = c.upd(r, k, v)
        return r

    def e_RangeSeq(self, e, st):
        return self.th.seq(IntS).range(self.ev(e._low, st), self.ev(e._high, st))

    def e_SeqAppend(self, e, st):
        a, b = self.b2(e, st)
        return self.C(a).app(a, b)

    def e_SeqLength(self, e, st):
        a = self.ev(e._s, st)
        return self.C(a).len(a)

    def e_SeqIndex(self, e, st):
        a, i = self.ev(e._s, st), self.ev(e._idx, st)
        c = self.C(a)
        self.require(i >= 0, 'seq.index.negative', e)
        self.require(i < c.len(a), 'seq.index.length', e)
        return c.idx(a, i)

    def e_SeqTake(self, e, st):
        a = self.ev(e._s, st)
        return self.C(a).take(a, self.ev(e._n, st))

    def e_SeqDrop(self, e, st):
        a = self.ev(e._s, st)
        return self.C(a).drop(a, self.ev(e._n, st))

    def e_SeqUpdate(self, e, st):
        a, i, v = self.ev(e._s, st), self.ev(e._idx, st), self.ev(e._elem, st)
        c = self.C(a)
        self.require(i >= 0, 'seq.index.negative', e)
        self.require(i < c.len(a), 'seq.index.length', e)
        return c.upd(a, i, v)

    def e_SeqContains(self, e, st):
        v, a = self.ev(e._elem, st), self.ev(e._s, st)
        return self.C(a).has(a, v)

    def e_AnySetContains(self, e, st):
        v, a = self.ev(e._elem, st), self.ev(e._s, st)
        c = self.C(a)
        if c.kind == 'mset':
            # in source, `x in ms` denotes multiplicity (Int) or membership; nagini only uses it as Int
            return c.cnt(v, a)
        if c.kind == 'set' and self.plainly_in(c, v, a):
            return TRUE
        return c.has(v, a)

    def plainly_in(self, c, v, a):
        st = [a]
        while st:
            x = st.pop()
            d = x.decl() if z3.is_app(x) else None
            if d is not None and d.eq(c.union):
                st.extend(x.children())
            elif d is not None and d.eq(c.single) and x.arg(0).eq(v):
                return True
        return False

    def e_AnySetCardinality(self, e, st):
        a = self.ev(e._s, st)
        return self.C(a).card(a)

    def e_AnySetUnion(self, e, st):
        a, b = self.b2(e, st)
        return self.C(a).union(a, b)

    def e_AnySetIntersection(self, e, st):
        a, b = self.b2(e, st)
        return self.C(a).inter(a, b)

    def e_AnySetMinus(self, e, st):
        a, b = self.b2(e, st)
        return self.C(a).diff(a, b)

    def e_AnySetSubset(self, e, st):
        a, b = self.b2(e, st)
        return self.C(a).sub(a, b)

    def e_MapContains(self, e, st):
        k, m = self.ev(e._key, st), self.ev(e._base, st)
        c = self.C(m)
        return self.th.set(c.K).has(k, c.dom(m))

    def e_MapLookup(self, e, st):
        m, k = self.ev(e._base, st), self.ev(e._key, st)
        c = self.C(m)
        self.require(self.th.set(c.K).has(k, c.dom(m)), 'map.key.contains', e)
        return c.get(m, k)

    def e_MapUpdate(self, e, st):
        m, k, v = self.ev(e._base, st), self.ev(e._key, st), self.ev(e._value, st)
        return self.C(m).upd(m, k, v)

    def e_MapDomain(self, e, st):
        m = self.ev(e._base, st)
        return self.C(m).dom(m)

    def e_MapRange(self, e, st):
        m = self.ev(e._base, st)
        return self.C(m).rng(m)

    def e_MapCardinality(self, e, st):
        m = self.ev(e._base, st)
        return self.C(m).card(m)

    # applications
    def e_DomainFuncApp(self, e, st):
        d, f = self.dfuncs[e._funcname]
        args = [self.ev(a, st) for a in e._args]
        if f._interpretation not in (None, V.NONE):
            return self.interp(f, d, args)
        inst = self.tvkey(e._typVarMap, self.tv)
        if len(d._typVars):
            # infer from arguments (robust against partial maps)
            for fa, a in zip(f._formalArgs, args):
                self.infer(fa._typ, a.sort(), inst)
            inst = {v._name: inst.get(v._name, IntS) for v in d._typVars}
        fn = self.domfn(e._funcname, inst)
        args = [self.toreal(a) if fn.domain(i) == RealS else a for i, a in enumerate(args)]
        return fn(*args)

    def infer(self, t, s, inst):
        if isinstance(t, V.TypeVar):
            inst[t._name] = s
        elif type(t).__name__ in ('SeqType', 'SetType', 'MultisetType'):
            c = self.th.coll(s)
            if c is not None:
                self.infer(t._elementType, c.E, inst)

    def e_BackendFuncApp(self, e, st):
        d, f = self.dfuncs[e._funcname]
        return self.interp(f, d, [self.ev(a, st) for a in e._args])

    def e_FuncApp(self, e, st):
        name = e._funcname
        f = self.functions[name]
        args = [self.ev(a, st) for a in e._args]
        d = self.fn(name)
        s = self.call_pre(f, args, st, e)
        if self.term is not None and self.checking:
            self.check_term(f, args, st, e)
        if self.in_func and name in self.scc().get(self.in_func, ()):
            d = self.flim[name]
        vs = ([s] if self.heapdep(f) else []) + args
        vs = [self.fit(a, d.domain(i)) for i, a in enumerate(vs)]
        if not self.nofacts:
            self.assume(self.fpre[name](*vs))
            if name in self.frev and annotated(e._info, 'reveal'):
                self.assume(self.frev[name](*vs))
        if isinstance(f._body, V.Some) and type(f._body.v).__name__ == 'LocalVar' and name not in self.frev:
            return args[[a._name for a in f._formalArgs].index(f._body.v._name)]    # identity functions
        return d(*vs)

    # termination measures of functions (the termination plugin's checks)
    def dec_spec(self, f):
        tup = wild = None
        for p in list(f._pres) + list(f._posts):
            t = type(p).__name__
            if t == 'DecreasesTuple': tup = p
            elif t == 'DecreasesWildcard': wild = p
        return tup, wild

    def cond_of(self, p, st):
        if p is None:
            return FALSE
        c = p._condition
        return self.ev(c.v, st) if isinstance(c, V.Some) else TRUE

    def measure(self, m, st):
        if type(m).__name__ == 'PredicateInstance':
            return ('pred', m._p, [self.ev(a, st) for a in m._args])
        return self.ev(m, st)

    def start_term(self, f, st):
        tup, wild = self.dec_spec(f)
        if tup is None:
            return None
        chk, self.checking = self.checking, False
        try:
            return (f._name, self.cond_of(tup, st), [self.measure(m, st) for m in tup._tupleExpressions])
        finally:
            self.checking = chk

    def check_term(self, f, args, st, e):
        me, cond, mine = self.term
        st2 = State({a._name: t for a, t in zip(f._formalArgs, args)}, dict(st.heap), st.olds, st.trace)
        tup, wild = self.dec_spec(f)
        cur, chk, term = self.cur, self.checking, self.term
        self.checking, self.term = False, None
        try:
            tc, wc = self.cond_of(tup, st2), self.cond_of(wild, st2)
            theirs = [self.measure(m, st2) for m in tup._tupleExpressions] if tup is not None else []
            self.cur = ('termination.failed', e)
            if not self.prove(implies(cond, mkor([tc, wc]))):
                self.failures.append(Failure('termination.failed', e, 'termination.condition.false', e))
            elif f._name in self.scc().get(me, ()) or f._name == me:
                if not self.prove(implies(mkand([cond, tc, mknot(wc)]), self.lex(theirs, mine))):
                    self.failures.append(Failure('termination.failed', e, 'tuple.false', e))
        finally:
            self.cur, self.checking, self.term = cur, chk, term

    def lex(self, new, old):
        if not new or not old:
            return FALSE
        a, b = new[0], old[0]
        return mkor([self.decr(a, b), mkand([self.msame(a, b), self.lex(new[1:], old[1:])])])

    def msame(self, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if not (isinstance(a, tuple) and isinstance(b, tuple)) or a[1] != b[1]:
                return FALSE
            return eqs(a[2], b[2])
        return a == b if a.sort() == b.sort() else FALSE

    def decr(self, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if not (isinstance(a, tuple) and isinstance(b, tuple)):
                return FALSE
            return self.nested_in(a, b, 4)
        if a.sort() != b.sort():
            return FALSE
        if a.sort() == IntS: return z3.And(a < b, b >= 0)
        if a.sort() == BoolS: return z3.And(z3.Not(a), b)
        if a.sort() == RealS: return z3.And(a <= b - 1, b >= 0)
        c = self.th.coll(a.sort())
        if c is not None and c.kind == 'seq':
            return c.len(a) < c.len(b)
        raise Unsupported('termination measure of sort %s' % a.sort())

    def nested_in(self, a, b, depth):
        out = []
        for (q, qa, g, p, pa) in self.nests:
            if q == a[1]:
                here = mkand([g, eqs(qa, a[2])])
                up = [eqs(pa, b[2])] if p == b[1] else []
                if depth > 1:
                    up.append(self.nested_in(('pred', p, pa), b, depth - 1))
                out.append(mkand([here, mkor(up)]))
        return mkor(out)

    def mark(self, pred, snap, args):
        """record that predicate instance pred(args) with snapshot snap is folded/unfolded here"""
        if snap is None:
            return
        t = z3.Function('%trig_' + pred, *([SnapS] + [a.sort() for a in args] + [BoolS]))(snap, *args)
        if not self.qstack:
            self.assume(t)
        elif self.trigs is not None:
            self.trigs.append(t)

    def fit(self, a, sort):
        return self.toreal(a) if sort == RealS and a.sort() == IntS else a

    def call_pre(self, f, args, st, e):
        """check f's precondition in st (when checking) and compute its snapshot"""
        hd = self.heapdep(f)
        if not self.checking and not hd:
            return None
        st2 = State({a._name: t for a, t in zip(f._formalArgs, args)}, dict(st.heap), st.olds, st.trace)
        chk = self.checking
        cur = self.cur
        if chk:
            self.cur = ('application.precondition', e)
        try:
            snaps = []
            infn = self.in_func
            for p in f._pres:
                if type(p).__name__.startswith('Decreases'):
                    continue
                if p.isPure():
                    if chk:
                        self.checking = False
                        t = self.ev(p, st2)
                        self.checking = True
                        for c, node in self.conjuncts(p, t):
                            if not self.prove(c):
                                self.fail('assertion.false', node)
                else:
                    snaps.append(self.consume(p, st2, st2, wild=True, evalchk=False, readonly=True))
            return self.join_snaps(snaps) if hd else None
        finally:
            self.cur = cur
            self.checking = chk

    def conjuncts(self, p, t):
        """pair up syntactic conjuncts with terms when possible"""
        return [(t, p)]

    # heap reading
    def chunks(self, st, res): return st.heap.get(res, ())

    def total(self, st, res, args):
        r = N0
        for c in self.chunks(st, res):
            r = add(r, c.p(args))
        return r

    def lookup(self, st, res, args, sort):
        """value of resource at args (no checks): deterministic ite chain over the chunks"""
        cs = [c for c in self.chunks(st, res)]
        for c in cs:
            if not c.q and all(x.eq(y) for x, y in zip(c.args, args)) and self.surely_pos(c.perm):
                return c.val
        cs2 = [c for c in cs if not z3.is_false(c.p(args) > 0)]
        cs2.sort(key=lambda c: not (not c.q and all(x.eq(y) for x, y in zip(c.args, args))))
        if cs2 and not cs2[0].q and all(x.eq(y) for x, y in zip(cs2[0].args, args)):
            t = z3.simplify(cs2[0].perm > 0)
            if z3.is_true(t) or t.get_id() in self.known or any(
                    g.eq(t) or (z3.is_and(g) and any(h.eq(t) for h in g.children())) for g in self.guards):
                return cs2[0].val
        if not cs2:
            return z3.Function('$nohp_%s' % res, *([a.sort() for a in args] + [sort]))(*args)
        if len(cs2) == 1:
            return cs2[0].v(args)
        # prefer proven equality
        if not self.qstack:
            for c in cs2:
                if not c.q and self.surely_pos(c.perm):
                    t = eqs(c.args, args)
                    if t.get_id() in self.known:
                        return c.val
        r = cs2[-1].v(args)
        for c in reversed(cs2[:-1]):
            r = ite(z3.simplify(c.p(args) > 0) if not c.q else c.p(args) > 0, c.v(args), r)
        return r

    def surely_pos(self, p):
        if z3.is_rational_value(p):
            return p.as_fraction() > 0
        return (p > 0).get_id() in self.known

    def has_pos(self, st, res, args):
        for c in self.chunks(st, res):
            if not c.q and self.surely_pos(c.perm) and all(x.eq(y) for x, y in zip(c.args, args)):
                return True
        cs = self.chunks(st, res)
        if not cs:
            return self.prove(FALSE) if not self.qstack else self.prove(FALSE)
        return self.prove(self.total(st, res, args) > 0)

    def e_FieldAccess(self, e, st):
        r = self.ev(e._rcv, st)
        fld = e._field
        if self.checking:
            if not self.has_pos(st, fld._name, [r]):
                # silicon: receiver null is reported as insufficient permission as well
                self.fail('insufficient.permission', e)
        return self.lookup(st, fld._name, [r], self.dom_sort(fld._typ))

    def e_Old(self, e, st):
        return self.ev(e._exp, State(st.store, st.olds.get('old', {}), st.olds, st.trace))

    def e_LabelledOld(self, e, st):
        h = st.olds.get(e._oldLabel)
        if h is None:
            if e._oldLabel == 'lhs':
                raise Unsupported('lhs')
            if self.checking:
                self.fail('label.not.reached', e)
            h = {}
        return self.ev(e._exp, State(st.store, h, st.olds, st.trace))

    def e_Let(self, e, st):
        v = self.ev(e._exp, st)
        st2 = State(dict(st.store), st.heap, st.olds, st.trace)
        st2.store[e._variable._name] = v
        return self.ev(e._body, st2)

    def e_Asserting(self, e, st):
        if self.checking:
            st2 = st.copy()
            self.consume(e._a, st2, st2)
        return self.ev(e._body, st)

    def e_InhaleExhaleExp(self, e, st):
        return self.ev(getattr(e, '_in') if self.mode_in else e._ex, st)
    mode_in = True

    def e_Unfolding(self, e, st):
        loc = e._acc._loc
        st2 = st.copy()
        args = [self.ev(a, st) for a in loc._args]
        pe = e._acc._permExp
        pe = pe.v if isinstance(pe, V.Some) else pe
        if isinstance(pe, V.WildcardPerm):
            perm, wild = None, True
        elif self.fun_mode and self.checking:
            perm, wild = None, True     # permission amounts do not matter inside functions
        elif pe in (None, V.NONE):
            perm, wild = N1, False
        else:
            perm, wild = self.ev(pe, st), False
        cur = self.cur
        snap, used = self.take(st2, loc._predicateName, args, perm, wild, e._acc, e._acc, SnapS)
        self.cur = cur
        self.mark(loc._predicateName, snap, args)
        pred = self.predicates[loc._predicateName]
        if not isinstance(pred._body, V.Some):
            raise Unsupported('unfolding abstract predicate')
        st3 = State({a._name: t for a, t in zip(pred._formalArgs, args)}, st2.heap, st.olds, st.trace)
        chk = self.checking
        self.checking = False
        try:
            if self.term is not None:
                self.nest = (loc._predicateName, args)
            st3, ts = self.produce_pure(pred._body.v, snap, st3, scale=used)
            self.nest = None
            for t in ts:
                self.assume(t)
        finally:
            self.checking = chk
        return self.ev(e._body, State(st.store, st3.heap, st.olds, st.trace))

    def e_CurrentPerm(self, e, st):
        res, args = self.resource(e._res, st)
        return self.total(self.curheap(st), res, args)

    def resource(self, loc, st):
        if isinstance(loc, V.FieldAccess):
            return loc._field._name, [self.ev(loc._rcv, st)]
        return loc._predicateName, [self.ev(a, st) for a in loc._args]

    def e_ForPerm(self, e, st):
        vs = list(e._variables)
        loc = e._resource
        if isinstance(loc, V.FieldAccess):
            res, argexp = loc._field._name, [loc._rcv]
        else:
            res, argexp = loc._predicateName, list(loc._args)
        out = []
        for c in self.chunks(self.curheap(st), res):
            if c.q:
                cs = [self.fresh(v._name, self.dom_sort(v._typ)) for v in vs]
                st2 = State(dict(st.store), st.heap, st.olds, st.trace)
                for v, t in zip(vs, cs):
                    st2.store[v._name] = t
                a = [self.ev(x, st2) for x in argexp]
                g = c.p(a) > 0
                b = self.with_guard(g, lambda: self.ev(e._body, st2))
                out.append(z3.ForAll(cs, implies(g, b)))
                continue
            st2 = State(dict(st.store), st.heap, st.olds, st.trace)
            g = [c.perm > 0] if not self.surely_pos(c.perm) else []
            names = {v._name for v in vs}
            for x, t in zip(argexp, c.args):
                if isinstance(x, V.LocalVar) and x._name in names and x._name not in [None]:
                    st2.store[x._name] = t
                    names.discard(x._name)
            for x, t in zip(argexp, c.args):
                u = self.ev(x, st2)
                if not u.eq(t):
                    g.append(u == t)
            gg = mkand(g)
            b = self.with_guard(gg, lambda: self.ev(e._body, st2))
            out.append(implies(gg, b))
        return mkand(out)

    # quantifiers
    def quant(self, e, st, build):
        cs = [self.fresh(v._name.replace('$', '_'), self.dom_sort(v._typ, self.tv)) for v in e._variables]
        st2 = State(dict(st.store), st.heap, st.olds, st.trace)
        for v, c in zip(e._variables, cs):
            st2.store[v._name] = c
        facts = []
        self.qstack.append((facts, len(self.guards)))
        try:
            body = self.ev(e._exp, st2)
            pats = []
            chk, nf = self.checking, self.nofacts
            self.checking, self.nofacts = False, True
            try:
                for tr in e._triggers:
                    ts = [self.ev(x, st2) for x in tr._exps]
                    if self.okpat(ts, cs):
                        pats.append(ts[0] if len(ts) == 1 else z3.MultiPattern(*ts))
            finally:
                self.checking, self.nofacts = chk, nf
        finally:
            self.qstack.pop()
        if not pats:
            pats = self.auto_pats(body, cs)
        if facts:
            used = [f for f in facts]
            fx = mkand(used)
            self.assume(self.mkq(z3.ForAll, cs, fx, pats))
        return self.mkq(build, cs, body, pats)

    def mkq(self, build, cs, body, pats):
        if z3.is_true(body) or z3.is_false(body):
            return body
        try:
            return build(cs, body, patterns=pats) if pats else build(cs, body)
        except z3.Z3Exception:
            return build(cs, body)

    def e_Forall(self, e, st): return self.quant(e, st, z3.ForAll)
    def e_Exists(self, e, st): return self.quant(e, st, z3.Exists)

    def okpat(self, ts, cs):
        need = {c.get_id() for c in cs}
        got = set()
        for t in ts:
            if not z3.is_app(t) or t.num_args() == 0 or t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                return False
            st = [t]
            while st:
                x = st.pop()
                if z3.is_quantifier(x):
                    return False
                if x.get_id() in need:
                    got.add(x.get_id())
                    continue
                k = x.decl().kind()
                if k in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES,
                         z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
                    return False
                st.extend(x.children())
        return got == need

    def auto_pats(self, body, cs):
        need = {c.get_id() for c in cs}
        cands = {}
        seen = set()

        def go(t):
            """returns (vars, clean) and records candidate patterns"""
            if t.get_id() in seen and t.get_id() not in need:
                pass
            if t.get_id() in need:
                return {t.get_id()}, True
            if not z3.is_app(t):
                return set(), False
            vs, clean = set(), True
            for c in t.children():
                a, b = go(c)
                vs |= a
                clean = clean and b
            k = t.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED or t.num_args() == 0:
                if vs and clean and t.num_args():
                    cands[t.get_id()] = (t, vs)
                return vs, clean
            return vs, not vs
        go(body)
        full = [t for t, vs in cands.values() if vs == need]
        if full:
            full.sort(key=lambda t: len(t.sexpr()))
            mini = []
            for t in full:
                if not any(self.subterm(m, t) for m in mini):
                    mini.append(t)
            return mini[:6]
        # greedy multi-pattern
        got, pick = set(), []
        for t, vs in sorted(cands.values(), key=lambda x: len(x[0].sexpr())):
            if vs - got:
                pick.append(t)
                got |= vs
        if got == need:
            return [z3.MultiPattern(*pick)]
        return []

    def subterm(self, a, b):
        if a.eq(b):
            return True
        return z3.is_app(b) and any(self.subterm(a, c) for c in b.children())

    # ------------------------------------------------------------------ permissions
    def permval(self, acc, st):
        pe = acc._permExp
        pe = pe.v if isinstance(pe, V.Some) else pe
        if pe in (None, V.NONE) or pe is None:
            return N1, False
        if isinstance(pe, V.WildcardPerm):
            return None, True
        p = self.ev(pe, st)
        if p.sort() == IntS:
            p = z3.ToReal(p)
        return p, False

    def ressort(self, res):
        return self.dom_sort(self.fields[res]._typ) if res in self.fields else SnapS

    def take(self, st, res, args, perm, wild, node, accnode, sort, guard=TRUE, readonly=False):
        """remove permission from st.heap; returns (value, amount removed)"""
        chk = self.checking
        cs = list(self.chunks(st, res))
        if not chk and (readonly or self.qstack):
            # pure mode: just read
            used = perm if perm is not None else N1
            val = self.lookup(st, res, args, sort)
            if not readonly:
                for i, c in enumerate(cs):
                    if not c.q and all(x.eq(y) for x, y in zip(c.args, args)) and c.perm.eq(used):
                        st.heap[res] = tuple(cs[:i] + cs[i + 1:])
                        break
            return val, used
        if chk and not wild and not z3.is_rational_value(perm):
            if not self.prove(implies(guard, perm >= 0)):
                self.fail('negative.permission', accnode)
        if wild:
            # find a chunk with known positive permission
            for i, c in enumerate(cs):
                if not c.q and all(x.eq(y) for x, y in zip(c.args, args)):
                    if self.surely_pos(c.perm) or (z3.is_true(guard) and self.prove(c.perm > 0)):
                        if readonly:
                            return c.val, c.perm
                        w = self.fresh('w', RealS)
                        self.assume(z3.And(w > 0, w < c.perm))
                        cs[i] = Chunk(c.args, ite(guard, c.perm - w, c.perm), c.val)
                        self.assume(cs[i].perm > 0)
                        st.heap[res] = tuple(cs)
                        return c.val, w
            tot = self.total(st, res, args)
            if chk and not self.prove(implies(guard, tot > 0)):
                self.fail('insufficient.permission', self.loc(accnode))
            val = self.lookup(st, res, args, sort)
            if readonly:
                return val, tot
            out, used = [], N0
            for c in cs:
                w = self.fresh('w', RealS)
                pc = c.p(args)
                self.assume(implies(z3.And(guard, pc > 0), z3.And(w > 0, w < pc)))
                self.assume(implies(z3.Not(z3.And(guard, pc > 0)), w == 0))
                used = add(used, w)
                out.append(self.reduce(c, args, w))
            st.heap[res] = tuple(out)
            return val, used
        # exact amount: syntactic / provable match of a basic chunk first
        if z3.is_true(guard) or True:
            for i, c in enumerate(cs):
                if c.q or not all(x.eq(y) for x, y in zip(c.args, args)):
                    continue
                ok = c.perm.eq(perm) or (z3.is_rational_value(c.perm) and z3.is_rational_value(perm) and
                                         c.perm.as_fraction() >= perm.as_fraction())
                if not ok and z3.is_true(guard):
                    ok = self.prove(c.perm >= perm)
                if ok:
                    self.put(st, res, cs, i, c, perm, guard)
                    return c.val, perm
        need = ite(guard, perm, N0)
        if z3.is_true(guard) and not self.qstack:
            for i, c in enumerate(cs):
                if c.q or not isval(c.perm, lambda v: v > 0):
                    continue
                if len(cs) <= 6 and self.prove(eqs(c.args, args), 400_000) and self.prove(c.perm >= perm):
                    self.put(st, res, cs, i, c, perm, guard)
                    return c.val, perm
        tot = self.total(st, res, args)
        if chk and not self.prove(tot >= need):
            self.fail('insufficient.permission', self.loc(accnode))
        val = self.lookup(st, res, args, sort)
        out, rem = [], need
        for c in cs:
            pc = c.p(args)
            t = zmin(pc, rem)
            out.append(self.reduce(c, args, t))
            rem = sub(rem, t)
        st.heap[res] = tuple(c for c in out if c is not None)
        return val, perm

    def loc(self, acc): return getattr(acc, '_loc', acc)

    def put(self, st, res, cs, i, c, perm, guard):
        np = sub(c.perm, perm)
        if not z3.is_true(guard):
            np = ite(guard, np, c.perm)
        if isval(np, lambda v: v == 0):
            del cs[i]
        else:
            cs[i] = Chunk(c.args, np, c.val)
        st.heap[res] = tuple(cs)

    def reduce(self, c, args, t):
        if c.q:
            pf = c.pf
            return Chunk(None, None, None, True,
                         lambda a, pf=pf, t=t, args=args: sub(pf(a), ite(eqs(a, args), t, N0)), c.vf)
        np = sub(c.perm, t)
        return Chunk(c.args, np, c.val)

    def give(self, st, res, args, perm, val):
        """add permission"""
        if isval(perm, lambda v: v <= 0):
            return
        cs = list(self.chunks(st, res))
        isf = res in self.fields
        for i, c in enumerate(cs):
            if not c.q and all(x.eq(y) for x, y in zip(c.args, args)):
                np = add(c.perm, perm)
                both = mkand([t for t in (c.perm > 0, perm > 0) if not self.trivpos(t)])
                if not c.val.eq(val):
                    self.assume(implies(both, c.val == val))
                    nv = c.val if self.surely_pos(c.perm) else ite(c.perm > 0, c.val, val)
                else:
                    nv = c.val
                cs[i] = Chunk(c.args, np, nv)
                st.heap[res] = tuple(cs)
                if isf and not self.qstack:
                    self.assume(np <= 1)
                if not self.surely_pos(c.perm) and not self.qstack:
                    for d in cs:
                        if d.args is not args and not d.q and not eqs(d.args, args).eq(TRUE):
                            pos = [t for t in (d.perm > 0, perm > 0) if not self.trivpos(t)]
                            self.assume(implies(mkand([eqs(d.args, args)] + pos), d.val == val))
                return
        new = Chunk(tuple(args), perm, val)
        if not self.qstack:
            if isf:
                if not z3.is_rational_value(perm):
                    self.assume(perm <= 1)
                elif perm.as_fraction() > 1:
                    self.assume(FALSE)
                self.assume(implies(perm > 0 if not z3.is_rational_value(perm) else TRUE, args[0] != NULL))
            for c in cs:
                if c.q:
                    if isf:
                        self.assume(implies(z3.And(c.pf(args) > 0, perm > 0), c.vf(args) == val))
                        self.assume(c.pf(args) + perm <= 1)
                    continue
                eq = eqs(c.args, args)
                if z3.is_false(eq):
                    continue
                pos = [t for t in (c.perm > 0, perm > 0) if not self.trivpos(t)]
                if isf:
                    if z3.is_rational_value(c.perm) and z3.is_rational_value(perm):
                        if c.perm.as_fraction() + perm.as_fraction() > 1:
                            self.assume(mknot(eq))
                            continue
                    else:
                        self.assume(implies(eq, c.perm + perm <= 1))
                self.assume(implies(mkand([eq] + pos), c.val == val))
        st.heap[res] = tuple(cs) + (new,)

    def trivpos(self, t):
        return z3.is_true(z3.simplify(t))

    # ------------------------------------------------------------------ produce
    def produce_pure(self, a, snap, st, scale=None):
        """produce without side assumptions on the solver: returns (state, [pure facts]); used for functions"""
        st = st.copy()
        out = []
        self._prod(a, snap, st, TRUE, scale, out)
        return st, out

    def produce(self, a, snap, st, scale=None):
        """inhale a into st (mutated); pure facts are assumed"""
        self._prod(a, snap, st, TRUE, scale, None)

    def _fact(self, t, guard, out):
        t = implies(guard, t)
        if out is None:
            self.assume(t)
        else:
            out.append(t)

    def under(self, guard, fn):
        if z3.is_true(guard):
            return fn()
        return self.with_guard(guard, fn)

    def _prod(self, a, snap, st, guard, scale, out):
        n = type(a).__name__
        if n.startswith('Decreases'):
            return
        if a.isPure() and n != 'InhaleExhaleExp':
            save = self.mode_in
            self.mode_in = True
            t = self.under(guard, lambda: self.ev(a, st))
            self.mode_in = save
            self._fact(t, guard, out)
            return
        if n == 'And':
            l, r = a._left, a._right
            lp, rp = l.isPure(), r.isPure()
            if snap is None or lp or rp:
                self._prod(l, snap, st, guard, scale, out)
                self._prod(r, snap, st, guard, scale, out)
            else:
                self._prod(l, self.th.fst(snap), st, guard, scale, out)
                self._prod(r, self.th.snd(snap), st, guard, scale, out)
            return
        if n == 'Implies':
            c = self.under(guard, lambda: self.ev(a._left, st))
            g = mkand([guard, c])
            if not z3.is_false(g):
                self._prod(a._right, snap, st, g, scale, out)
            return
        if n == 'CondExp':
            c = self.under(guard, lambda: self.ev(a._cond, st))
            self._prod(a._thn, snap, st, mkand([guard, c]), scale, out)
            self._prod(a._els, snap, st, mkand([guard, mknot(c)]), scale, out)
            return
        if n == 'InhaleExhaleExp':
            return self._prod(getattr(a, '_in'), snap, st, guard, scale, out)
        if n in ('FieldAccessPredicate', 'PredicateAccessPredicate'):
            def go():
                res, args = self.resource(a._loc, st)
                p, wild = self.permval(a, st)
                return res, args, p, wild
            res, args, p, wild = self.under(guard, go)
            if self.nest is not None and n == 'PredicateAccessPredicate':
                self.nests.append((res, list(args), mkand(list(self.guards) + [guard])) + self.nest)
            if wild:
                p = self.fresh('wp', RealS)
                if out is None or not self.qstack:
                    self.assume(p > 0)
                else:
                    p = z3.RealVal('1/2')
            elif self.checking and not z3.is_rational_value(p):
                if not self.under(guard, lambda: self.prove(p >= 0)):
                    self.fail('negative.permission', a)
            if scale is not None and not isval(scale, lambda v: v == 1):
                p = p * scale if not isval(p, lambda v: v == 1) else scale
            p = ite(guard, p, N0)
            sort = self.ressort(res)
            if snap is None:
                val = self.fresh(res, sort)
            else:
                val = self.th.unbox(snap, sort)
            saveg, self.guards = self.guards, ([] if not self.qstack else self.guards)
            try:
                self.give(st, res, args, p, val)
            finally:
                self.guards = saveg
            return
        if n == 'Forall':
            return self.prod_qp(a, snap, st, guard, scale, out)
        if n == 'Let':
            v = self.ev(a._exp, st)
            old = st.store.get(a._variable._name)
            st.store[a._variable._name] = v
            self._prod(a._body, snap, st, guard, scale, out)
            if old is not None:
                st.store[a._variable._name] = old
            return
        if n == 'Unfolding':
            # acc inside unfolding body is not allowed in Viper
            raise Unsupported('impure unfolding')
        raise Unsupported('produce ' + n)

    def qp_parts(self, a):
        """forall vs :: c1 ==> ... ==> acc(...)"""
        conds, b = [], a._exp
        while isinstance(b, V.Implies):
            conds.append(b._left)
            b = b._right
        if not isinstance(b, (V.FieldAccessPredicate, V.PredicateAccessPredicate)):
            raise Unsupported('quantified permission shape %s' % V.pp(a)[:120])
        return conds, b

    def qp_eval(self, a, st):
        """evaluate a QP with fresh constants for the bound variables"""
        conds, acc = self.qp_parts(a)
        cs = [self.fresh(v._name.replace('$', '_'), self.dom_sort(v._typ)) for v in a._variables]
        st2 = State(dict(st.store), st.heap, st.olds, st.trace)
        for v, c in zip(a._variables, cs):
            st2.store[v._name] = c
        facts = []
        self.qstack.append((facts, len(self.guards)))
        ng = 0
        try:
            cond = TRUE
            for c in conds:
                t = self.ev(c, st2)
                cond = mkand([cond, t])
                self.guards.append(t)
                ng += 1
            res, args = self.resource(acc._loc, st2)
            p, wild = self.permval(acc, st2)
        finally:
            for _ in range(ng):
                self.guards.pop()
            self.qstack.pop()
        if facts:
            self.assume(self.mkq(z3.ForAll, cs, mkand(facts), self.auto_pats(mkand(facts), cs)))
        return cs, cond, res, args, p, wild, acc

    def inverse(self, cs, cond, args, tag='inv'):
        """inverse functions for injective receiver expressions; returns (g(args) -> [values of cs], isin(args)->Bool)"""
        if len(cs) == len(args) and all(any(x.eq(c) for c in cs) for x in args):
            perm = [next(i for i, x in enumerate(args) if x.eq(c)) for c in cs]
            if len(set(perm)) == len(cs):
                return (lambda av: [av[i] for i in perm]), (lambda av: z3.substitute(
                    cond, *[(c, av[i]) for c, i in zip(cs, perm)]))
        n = next(self.ctr)
        invs = [z3.Function('$%s%d_%d' % (tag, n, i), *([x.sort() for x in args] + [c.sort()]))
                for i, c in enumerate(cs)]
        pats = self.auto_pats(mkand([x == x for x in args]) if False else z3.And([z3.Function(
            '$w_%s' % x.sort().sexpr(), x.sort(), BoolS)(x) for x in args]), cs)
        arg_pats = [t for t in self._argpats(args, cs)]
        body = implies(cond, mkand([f(*args) == c for f, c in zip(invs, cs)]))
        self.assume(self.mkq(z3.ForAll, cs, body, arg_pats or []))
        rs = [self.fresh('r', x.sort()) for x in args]
        subst = [(c, f(*rs)) for c, f in zip(cs, invs)]
        isin = z3.And(z3.substitute(cond, *subst), *[z3.substitute(x, *subst) == r for x, r in zip(args, rs)])
        fi = z3.Function('$in%d' % n, *([x.sort() for x in args] + [BoolS]))
        self.assume(self.mkq(z3.ForAll, rs, fi(*rs) == isin, [fi(*rs)]))
        self.assume(self.mkq(z3.ForAll, cs, fi(*args) == cond, arg_pats or []))
        return (lambda av: [f(*av) for f in invs]), (lambda av: fi(*av))

    def _argpats(self, args, cs):
        out = []
        need = {c.get_id() for c in cs}
        ts = [x for x in args if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        for x in ts:
            if self.okpat([x], cs):
                out.append(x)
        return out

    def prod_qp(self, a, snap, st, guard, scale, out):
        cs, cond, res, args, p, wild, acc = self.under(guard, lambda: self.qp_eval(a, st))
        if wild:
            p = self.fresh('wp', RealS)
            self.assume(p > 0)
        inv, isin = self.inverse(cs, mkand([cond, guard]), args)
        sort = self.ressort(res)
        if snap is None:
            vfn = z3.Function('$qv%d' % next(self.ctr), *([x.sort() for x in args] + [sort]))
            vf = lambda av: vfn(*av)
        else:
            sel = z3.Function('$qsel<%s>' % ','.join(
                str(x.sexpr()) for x in [a_.sort() for a_ in args] + [sort]), SnapS,
                *([x.sort() for x in args] + [sort]))
            vf = lambda av, snap=snap: sel(snap, *av)
        if scale is not None:
            p = p * scale

        def pf(av):
            t = z3.substitute(p, *zip(cs, inv(av))) if not z3.is_rational_value(p) else p
            return ite(isin(av), t, N0)
        isf = res in self.fields
        new = Chunk(None, None, None, True, pf, vf)
        if isf and not self.qstack:
            x = self.fresh('x', RefS)
            t = self.inv_trigger(isin, inv, x)
            # receivers are non-null, permissions at most one in sum with the other chunks
            pats = self._argpats(args, cs)
            self.assume(self.mkq(z3.ForAll, cs, implies(mkand([guard, cond] + ([] if z3.is_rational_value(p) else [p > 0])),
                                                        args[0] != NULL), pats))
            for c in self.chunks(st, res):
                if not c.q:
                    self.assume(z3.And(pf(list(c.args)) + c.perm <= 1,
                                       implies(z3.And(pf(list(c.args)) > 0, c.perm > 0), vf(list(c.args)) == c.val)))
        st.heap[res] = tuple(self.chunks(st, res)) + (new,)

    def inv_trigger(self, isin, inv, x): return None

    # ------------------------------------------------------------------ consume
    def consume(self, a, st, st0, wild=False, evalchk=True, readonly=False, guard=TRUE):
        old, self.pch = self.pch, (st, st0)
        try:
            return self._consume(a, st, st0, wild, evalchk, readonly, guard)
        finally:
            self.pch = old

    def curheap(self, st):
        """perm and forperm look at the partially consumed heap while an assertion is being exhaled"""
        if self.pch is not None and st.heap is self.pch[1].heap:
            return self.pch[0]
        return st

    def _consume(self, a, st, st0, wild=False, evalchk=True, readonly=False, guard=TRUE):
        """exhale a: perms removed from st.heap, expressions evaluated in st0 (heap before); returns snapshot"""
        n = type(a).__name__
        if n.startswith('Decreases'):
            return None
        if a.isPure() and n != 'InhaleExhaleExp':
            chk = self.checking
            if not evalchk:
                self.checking = False
            save = self.mode_in
            self.mode_in = False
            try:
                t = self.under(guard, lambda: self.ev(a, st0))
            finally:
                self.checking = chk
                self.mode_in = save
            if chk:
                if n == 'And':
                    pass
                if not self.prove(implies(guard, t)):
                    self.fail('assertion.false', self.culprit(a, st0, guard))
            return None
        if n == 'And':
            l = self.consume(a._left, st, st0, wild, evalchk, readonly, guard)
            r = self.consume(a._right, st, st0, wild, evalchk, readonly, guard)
            if l is None: return r
            if r is None: return l
            return self.th.mkpair(l, r)
        if n in ('Implies', 'CondExp'):
            ce = a._left if n == 'Implies' else a._cond
            c = self.evchk(ce, st0, evalchk, guard)
            th = a._right if n == 'Implies' else a._thn
            if self.checking and not self.qstack and not z3.is_true(c) and not z3.is_false(c):
                # decide the condition when possible (keeps heaps simple)
                if self.under(guard, lambda: self.prove(c, 200_000)):
                    c = TRUE
                elif self.under(guard, lambda: self.prove(mknot(c), 200_000)):
                    c = FALSE
            s1 = s2 = None
            if not z3.is_false(c):
                s1 = self.consume(th, st, st0, wild, evalchk, readonly, mkand([guard, c]))
            if n == 'CondExp' and not z3.is_true(c):
                s2 = self.consume(a._els, st, st0, wild, evalchk, readonly, mkand([guard, mknot(c)]))
            if z3.is_true(c): return s1 if s1 is not None else UNIT
            if z3.is_false(c): return s2 if s2 is not None else UNIT
            return ite(c, s1 if s1 is not None else UNIT, s2 if s2 is not None else UNIT)
        if n == 'InhaleExhaleExp':
            return self.consume(a._ex, st, st0, wild, evalchk, readonly, guard)
        if n in ('FieldAccessPredicate', 'PredicateAccessPredicate'):
            chk = self.checking
            if not evalchk:
                self.checking = False
            try:
                def go():
                    res, args = self.resource(a._loc, st0)
                    p, w = self.permval(a, st0)
                    return res, args, p, w
                res, args, p, w = self.under(guard, go)
            finally:
                self.checking = chk
            if wild:
                p, w = None, True
            saveg = self.guards
            v, _ = self.take(st, res, args, p, w, a, a, self.ressort(res), guard, readonly)
            return self.th.box(v)
        if n == 'Forall':
            return self.cons_qp(a, st, st0, wild, evalchk, readonly, guard)
        if n == 'Let':
            v = self.evchk(a._exp, st0, evalchk, guard)
            st1 = State(dict(st0.store), st0.heap, st0.olds, st0.trace)
            st1.store[a._variable._name] = v
            return self.consume(a._body, st, st1, wild, evalchk, readonly, guard)
        raise Unsupported('consume ' + n)

    def evchk(self, e, st, evalchk, guard):
        chk = self.checking
        if not evalchk:
            self.checking = False
        try:
            return self.under(guard, lambda: self.ev(e, st))
        finally:
            self.checking = chk

    def culprit(self, a, st, guard):
        """smallest failing conjunct of a pure assertion (only for reporting)"""
        while isinstance(a, V.And):
            chk = self.checking
            self.checking = False
            try:
                t = self.under(guard, lambda: self.ev(a._left, st))
                ok = None
            finally:
                self.checking = chk
            self.checking = True
            ok = self.prove(implies(guard, t))
            self.checking = chk
            a = a._right if ok else a._left
        return a

    def cons_qp(self, a, st, st0, wild, evalchk, readonly, guard):
        chk = self.checking
        if not evalchk:
            self.checking = False
        try:
            cs, cond, res, args, p, w, acc = self.under(guard, lambda: self.qp_eval(a, st0))
        finally:
            self.checking = chk
        if wild:
            w = True
        full = mkand([guard, cond])
        cks = list(self.chunks(st, res))
        sort = self.ressort(res)
        if chk:
            tot = N0
            for c in cks:
                tot = add(tot, c.p(args))
            goal = implies(full, tot > 0 if w else tot >= p)
            facts = []
            self.qstack.append((facts, len(self.guards)))
            try:
                ok = self.prove(goal)
            finally:
                self.qstack.pop()
            if not ok:
                self.fail('insufficient.permission', acc._loc)
            # injectivity
            cs2 = [self.fresh('y', c.sort()) for c in cs]
            sub2 = list(zip(cs, cs2))
            inj = implies(z3.And(full, z3.substitute(full, *sub2),
                                 *[x == z3.substitute(x, *sub2) for x in args]),
                          mkand([c == d for c, d in zip(cs, cs2)]))
            self.qstack.append(([], len(self.guards)))
            try:
                ok = self.prove(inj)
            finally:
                self.qstack.pop()
            if not ok:
                self.fail('qp.not.injective', acc._loc)
        inv, isin = self.inverse(cs, full, args)
        # snapshot
        snap = self.fresh('qs', SnapS)
        sel = z3.Function('$qsel<%s>' % ','.join(
            str(x.sexpr()) for x in [a_.sort() for a_ in args] + [sort]), SnapS,
            *([x.sort() for x in args] + [sort]))
        # canonical snapshot: determined by (chunk structure, condition) so that repeated consumption is functional
        key = ('qs', id(tuple(cks)) if False else tuple(id(c) for c in cks), full.sexpr() if not cs else
               z3.substitute(full, *[(c, z3.Const('$b%d' % i, c.sort())) for i, c in enumerate(cs)]).sexpr(),
               tuple(z3.substitute(x, *[(c, z3.Const('$b%d' % i, c.sort())) for i, c in enumerate(cs)]).sexpr()
                     for x in args))
        if not hasattr(self, 'qcache'):
            self.qcache = {}
        if key in self.qcache and not self.qstack:
            snap = self.qcache[key][0]
        else:
            self.qcache[key] = (snap, cks)
        val = self.lookup(st, res, args, sort)
        tr = [sel(snap, *args)] if self.okpat([sel(snap, *args)], cs) else []
        if not self.qstack:
            self.assume(self.mkq(z3.ForAll, cs, implies(full, sel(snap, *args) == val), tr + self._argpats(args, cs)))
        if readonly:
            return snap
        out = []
        if w:
            wf = z3.Function('$qw%d' % next(self.ctr), *([x.sort() for x in args] + [IntS, RealS]))
        consumed = []      # functions av -> Real of permission taken so far
        for k, c in enumerate(cks):
            def taken(av, c=c, k=k, prev=tuple(consumed)):
                pc = c.p(av)
                if w:
                    t = wf(*(list(av) + [z3.IntVal(k)]))
                    return ite(isin(av), ite(pc > 0, pc * (z3.If(z3.And(t > 0, t < 1), t, z3.RealVal('1/2'))), N0), N0)
                q = z3.substitute(p, *zip(cs, inv(av))) if not z3.is_rational_value(p) else p
                rem = ite(isin(av), q, N0)
                for pv in prev:
                    rem = sub(rem, pv(av))
                return zmin(pc, rem)
            consumed.append(taken)
            if c.q:
                out.append(Chunk(None, None, None, True,
                                 lambda av, c=c, taken=taken: sub(c.pf(av), taken(av)), c.vf))
            else:
                out.append(Chunk(c.args, sub(c.perm, taken(list(c.args))), c.val))
        st.heap[res] = tuple(out)
        return snap

    # ------------------------------------------------------------------ statements
    def run(self, k, st):
        """execute continuation k from state st"""
        while True:
            if k is None:
                return self.finish(st)
            if k.kind == 'loop':
                return self.loop_end(k, st)
            if k.kind == 'call':
                return k.data(st)
            if k.i >= len(k.stmts):
                k = k.nxt
                continue
            s = k.stmts[k.i]
            self.mark_line(s)
            rest = Kont(k.stmts, k.i + 1, k.nxt)
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Unsupported('statement ' + type(s).__name__)
            r = m(s, st, rest)
            if r is None:
                return
            st, k = r

    def mark_line(self, s):
        p = s._pos
        try:
            self.lines.add(p.line())
        except Exception:
            pass

    def s_Seqn(self, s, st, k):
        st = st.copy() if len(s._scopedSeqnDeclarations) else st
        for d in s._scopedSeqnDeclarations:
            if isinstance(d, V.LocalVarDecl):
                st.store[d._name] = self.fresh(d._name, self.dom_sort(d._typ))
        return st, Kont(list(s._ss), 0, k)

    def s_LocalVarDeclStmt(self, s, st, k):
        st = st.copy()
        st.store[s._decl._name] = self.fresh(s._decl._name, self.dom_sort(s._decl._typ))
        return st, k

    def s_LocalVarAssign(self, s, st, k):
        self.cur = ('assignment.failed', s)
        v = self.ev(s._rhs, st)
        st = st.copy()
        want = self.dom_sort(s._lhs._typ)
        if want == RealS:
            v = self.toreal(v)
        st.store[s._lhs._name] = v
        return st, k

    def s_FieldAssign(self, s, st, k):
        self.cur = ('assignment.failed', s)
        r = self.ev(s._lhs._rcv, st)
        v = self.ev(s._rhs, st)
        st = st.copy()
        f = s._lhs._field._name
        self.take(st, f, [r], N1, False, s._lhs, s._lhs, self.ressort(f))
        cs = [c for c in self.chunks(st, f) if c.q or not all(x.eq(y) for x, y in zip(c.args, [r]))
              or not isval(c.perm, lambda x: x == 0)]
        st.heap[f] = tuple(cs)
        self.give(st, f, [r], N1, v)
        return st, k

    def s_NewStmt(self, s, st, k):
        st = st.copy()
        r = self.fresh(s._lhs._name, RefS)
        ts = {}
        for t in st.store.values():
            if t.sort() == RefS:
                ts[t.get_id()] = t
        for cs in list(st.heap.values()) + [c for h in st.olds.values() for c in h.values()]:
            for c in cs:
                if not c.q:
                    for t in list(c.args) + [c.val]:
                        if t.sort() == RefS:
                            ts[t.get_id()] = t
        self.assume(z3.And([r != NULL] + [r != t for t in ts.values() if not t.eq(NULL)]))
        st.store[s._lhs._name] = r
        for f in s._fields:
            self.give(st, f._name, [r], N1, self.fresh(f._name, self.dom_sort(f._typ)))
        return st, k

    def s_Inhale(self, s, st, k):
        self.cur = ('inhale.failed', s)
        st = st.copy()
        self.produce(s._exp, None, st)
        return st, k

    def s_Assume(self, s, st, k):
        self.cur = ('assume.failed', s)
        self.assume(self.ev(s._exp, st))
        return st, k

    def s_Exhale(self, s, st, k):
        self.cur = ('exhale.failed', s)
        st1 = st.copy()
        self.consume(s._exp, st1, st)
        return st1, k

    def s_Assert(self, s, st, k):
        self.cur = ('assert.failed', s)
        st1 = st.copy()
        try:
            self.consume(s._exp, st1, st)
        except PathEnd:
            raise
        return st, k

    def s_Refute(self, s, st, k):
        self.refutes.setdefault(id(s), [s, False])
        self.cur = ('refute.failed', s)
        st1 = st.copy()
        n = len(self.failures)
        try:
            self.consume(s._exp, st1, st)
        except PathEnd:
            del self.failures[n:]
            self.refutes[id(s)][1] = True
        return st, k

    def positive(self, p, s):
        if isval(p, lambda v: v > 0):
            return
        if not self.prove(p > 0):
            pe = s._acc._permExp
            self.fail('permission.not.positive', pe.v if isinstance(pe, V.Some) else pe)

    def s_Fold(self, s, st, k):
        self.cur = ('fold.failed', s)
        loc = s._acc._loc
        pred = self.predicates[loc._predicateName]
        args = [self.ev(a, st) for a in loc._args]
        p, wild = self.permval(s._acc, st)
        if wild:
            raise Unsupported('fold wildcard')
        self.positive(p, s)
        st1 = st.copy()
        body_st = State({a._name: t for a, t in zip(pred._formalArgs, args)}, st1.heap, st.olds, st.trace)
        st0 = State(body_st.store, dict(st.heap), st.olds, st.trace)
        snap = self.consume_scaled(pred._body.v, body_st, st0, p)
        st1.heap = body_st.heap
        self.mark(loc._predicateName, snap, args)
        self.give(st1, loc._predicateName, args, p, snap if snap is not None else UNIT)
        return st1, k

    def consume_scaled(self, a, st, st0, p):
        if isval(p, lambda v: v == 1):
            return self.consume(a, st, st0, evalchk=False)
        old = self.permval

        def pv(acc, s):
            q, w = old(acc, s)
            return (q, w) if w else (p if isval(q, lambda v: v == 1) else q * p, w)
        self.permval = pv
        try:
            return self.consume(a, st, st0, evalchk=False)
        finally:
            del self.permval

    def s_Unfold(self, s, st, k):
        self.cur = ('unfold.failed', s)
        loc = s._acc._loc
        pred = self.predicates[loc._predicateName]
        args = [self.ev(a, st) for a in loc._args]
        p, wild = self.permval(s._acc, st)
        if not wild:
            self.positive(p, s)
        st1 = st.copy()
        snap, used = self.take(st1, loc._predicateName, args, p, wild, s._acc, s._acc, SnapS)
        self.mark(loc._predicateName, snap, args)
        b = State({a._name: t for a, t in zip(pred._formalArgs, args)}, st1.heap, st.olds, st.trace)
        chk, self.checking = self.checking, False
        try:
            self.produce(pred._body.v, snap, b, scale=used)
        finally:
            self.checking = chk
        st1.heap = b.heap
        return st1, k

    def s_Label(self, s, st, k):
        st = st.copy()
        if st.pend:
            st, _ = self.settle(s._name, st, k)
        st.olds[s._name] = dict(st.heap)
        return st, k

    def s_MethodCall(self, s, st, k):
        m = self.methods[s._methodName]
        self.cur = ('assignment.failed', s)
        args = [self.ev(a, st) for a in s._args]
        args = [self.toreal(t) if self.dom_sort(f._typ) == RealS else t for f, t in zip(m._formalArgs, args)]
        self.cur = ('call.precondition', s)
        env = {a._name: t for a, t in zip(m._formalArgs, args)}
        c1 = State(dict(env), dict(st.heap), {}, st.trace)
        c0 = State(dict(env), dict(st.heap), {}, st.trace)
        for p in m._pres:
            self.consume(p, c1, c0, evalchk=False)
        for r in m._formalReturns:
            env[r._name] = self.fresh(r._name, self.dom_sort(r._typ))
        c2 = State(dict(env), c1.heap, {'old': dict(st.heap)}, st.trace)
        chk, self.checking = self.checking, False
        try:
            for p in m._posts:
                self.produce(p, None, c2)
        finally:
            self.checking = chk
        st1 = st.copy()
        st1.heap = c2.heap
        for t, r in zip(s._targets, m._formalReturns):
            st1.store[t._name] = env[r._name]
        return st1, k

    def branch(self, c, fn):
        """run fn under assumption c in its own scope"""
        if z3.is_false(c):
            return
        self.push()
        try:
            self.assume(c)
            if not z3.is_true(c) and self.infeasible():
                return
            fn()
        except PathEnd:
            pass
        finally:
            self.pop()

    def s_If(self, s, st, k):
        self.cur = ('if.failed', s)
        c = self.ev(s._cond, st)
        if z3.is_true(c):
            return self.s_Seqn(s._thn, st, k)
        if z3.is_false(c):
            return self.s_Seqn(s._els, st, k)

        def go(body):
            st1 = st.copy()
            r = self.s_Seqn(body, st1, k)
            self.run(r[1], r[0])
        self.branch(c, lambda: go(s._thn))
        self.branch(mknot(c), lambda: go(s._els))
        return None

    def loop_written(self, loop):
        """variables assigned in the natural loop of `loop` (code after the method body that control reaches from the
        loop body and that jumps back belongs to it; code that leaves the loop for good does not)"""
        if self.loopmod is None:
            self.loopmod = self.flow(self.cur_body)
        return self.loopmod[id(loop)]

    def flow(self, root):
        succ, nodes, labels, heads = [], [], {}, {}

        def node(stmt):
            nodes.append(stmt)
            succ.append([])
            return len(nodes) - 1
        end = node(None)

        def build(s, nxt):
            t = type(s).__name__
            if t == 'Seqn':
                for x in reversed(list(s._ss)):
                    nxt = build(x, nxt)
                return nxt
            n = node(s)
            if t == 'If':
                succ[n] += [build(s._thn, nxt), build(s._els, nxt)]
            elif t == 'While':
                heads[id(s)] = n
                succ[n] += [nxt, build(s._body, n)]
            elif t == 'Label':
                labels[s._name] = n
                succ[n].append(nxt)
            elif t == 'Goto':
                succ[n].append(('goto', s._target))
            else:
                succ[n].append(nxt)
            return n
        entry = build(root, end)
        for n, ss in enumerate(succ):
            succ[n] = [labels.get(x[1], end) if isinstance(x, tuple) else x for x in ss]
        pred = [[] for _ in nodes]
        for n, ss in enumerate(succ):
            for m in ss:
                pred[m].append(n)

        def reach(start, adj, stop):
            seen, todo = {stop}, list(start)
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo.extend(adj[x])
            return seen - {stop}
        alive = reach([entry], succ, -1)
        out = {}
        for w, h in heads.items():
            dominated = alive - reach([entry] if entry != h else [], succ, h)
            back = [t for t in pred[h] if t in dominated]
            mods = set()
            for n in reach(back, pred, h) & alive:
                t = type(nodes[n]).__name__
                if t in ('LocalVarAssign', 'NewStmt'):
                    mods.add(nodes[n]._lhs._name)
                elif t == 'MethodCall':
                    mods.update(x._name for x in nodes[n]._targets)
            out[w] = mods
        return out

    def s_While(self, s, st, k):
        invs = [i for i in s._invs if not type(i).__name__.startswith('Decreases')]
        fr = st.copy()
        for i in invs:
            self.cur = ('invariant.not.established', i)
            self.consume(i, fr, st)
        mod = self.loop_written(s)
        hd = st.copy()
        hd.heap = {}
        for v in mod:
            if v in hd.store:
                hd.store[v] = self.fresh(v, hd.store[v].sort())
        # frames of the loop head
        self.push()
        try:
            for i in invs:
                self.cur = ('not.wellformed', i)
                self.produce(i, None, hd)
            self.cur = ('while.failed', s)
            c = self.ev(s._cond, hd)

            def body():
                kk = Kont(None, 0, k, 'loop', (s, invs, fr))
                r = self.s_Seqn(s._body, hd.copy(), kk)
                self.run(r[1], r[0])
            self.branch(c, body)

            def after():
                st2 = self.merge(hd, fr)
                self.run(k, st2)
            self.branch(mknot(c), after)
        except PathEnd:
            pass
        finally:
            self.pop()
        return None

    def merge(self, st, fr):
        """add frame heap fr.heap to st"""
        st2 = st.copy()
        for res, cs in fr.heap.items():
            for c in cs:
                if c.q:
                    st2.heap[res] = tuple(self.chunks(st2, res)) + (c,)
                else:
                    self.give(st2, res, list(c.args), c.perm, c.val)
        return st2

    def loop_end(self, k, st):
        s, invs, fr = k.data
        for l in st.pend[::-1]:
            if l is k:
                break
            st = self.merge(st, l.data[2])
        st1 = st.copy()
        for i in invs:
            self.cur = ('invariant.not.preserved', i)
            self.consume(i, st1, st)
        self.stats['paths'] += 1

    def s_Goto(self, s, st, k):
        return self.jump(s._target, st, k)

    def loops_of(self, k):
        """loop continuations k is (textually) inside of, outermost first"""
        out = []
        while k is not None:
            if k.kind == 'loop':
                out.append(k)
            k = k.nxt
        return out[::-1]

    def jump(self, lab, st, k):
        n = self.jumps = self.jumps + 1
        if n > 20000:
            raise Unsupported('too many jumps')
        open_ = list(st.pend) + [l for l in self.loops_of(k) if all(l is not x for x in st.pend)]
        root = k
        while root is not None and root.kind != 'root':
            root = root.nxt
        tk = None
        # innermost open loop whose body contains the label, otherwise the method body
        for l in reversed(open_):
            tk = self.find_label(l.data[0]._body, lab, l)
            if tk is not None:
                break
        if tk is None:
            tk = self.find_label(self.cur_body, lab, None)
        if tk is None:
            raise Unsupported('goto target %s not found' % lab)
        st = st.copy()
        st.pend = tuple(open_)
        return self.settle(lab, st, tk)

    def settle(self, lab, st, tk):
        """close the open loops that the code at label `lab` no longer belongs to"""
        inside = self.loops_of(tk)
        keep = []
        for l in st.pend[::-1]:        # innermost first
            if any(l is x for x in inside):
                continue
            if self.reaches(lab, l.data[0]):
                keep.append(l)
            else:
                st = self.merge(st, l.data[2])
        st.pend = tuple(keep[::-1])
        return st, tk

    def reaches(self, lab, loop):
        """can control at label lab get back into the body of `loop` without passing its head from outside?"""
        key = (lab, id(loop))
        if key not in self.rcache:
            self.rcache[key] = False
            self.rcache[key] = self._reaches(lab, loop)
        return self.rcache[key]

    def _reaches(self, lab, loop):
        inner = {x._name for x in V.walk(loop._body) if isinstance(x, V.Label)}
        # statically executable gotos from lab: walk the body in textual order, following control flow
        seen = set()
        todo = [lab]
        while todo:
            l = todo.pop()
            if l in seen:
                continue
            seen.add(l)
            if l in inner:
                return True
            k = self.find_label(self.cur_body, l, None) or self.find_any(l)
            if k is None:
                continue
            tg, _ = self.targets(k)
            todo.extend(tg)
        return False

    def find_any(self, lab):
        for w in V.walk(self.cur_body):
            if isinstance(w, V.While):
                r = self.find_label(w._body, lab, None)
                if r is not None:
                    return r
        return None

    def targets(self, k):
        """goto targets reachable from continuation k without following gotos (falls through to the end)"""
        out = set()

        def seq(ss, i):
            for x in ss[i:]:
                if not st(x):
                    return False
            return True

        def st(x):
            if isinstance(x, V.Goto):
                out.add(x._target)
                return False
            if isinstance(x, V.Label):
                return True
            if isinstance(x, V.Seqn):
                return seq(list(x._ss), 0)
            if isinstance(x, V.If):
                a = st(x._thn)
                b = st(x._els)
                return a or b
            if isinstance(x, V.While):
                return True
            return True
        while k is not None and k.kind != 'loop':
            if not seq(k.stmts, k.i):
                return out, False
            k = k.nxt
        return out, True

    def find_label(self, s, lab, nxt):
        """continuation at label lab inside statement s (not descending into loops)"""
        if isinstance(s, V.Seqn):
            ss = list(s._ss)
            for j, x in enumerate(ss):
                if isinstance(x, V.Label) and x._name == lab:
                    return Kont(ss, j, nxt)
                if isinstance(x, (V.Seqn, V.If)):
                    r = self.find_label(x, lab, Kont(ss, j + 1, nxt))
                    if r is not None:
                        return r
        elif isinstance(s, V.If):
            return self.find_label(s._thn, lab, nxt) or self.find_label(s._els, lab, nxt)
        return None

    # ------------------------------------------------------------------ members
    def finish(self, st):
        self.stats['paths'] += 1
        self.ends += 1
        if not self.live:
            self.live = not self.infeasible()
        m = self.cur_member
        for l in st.pend[::-1]:
            st = self.merge(st, l.data[2])
        st1 = st.copy()
        st0 = st
        for p in m._posts:
            if type(p).__name__.startswith('Decreases'):
                continue
            self.cur = ('postcondition.violated', p)
            self.consume(p, st1, st0)
        if self.on_exit:
            self.on_exit(st0)

    on_exit = None

    def predeclare(self, nodes):
        """touch the symbols used by the member so that their axioms sit at the bottom of the solver stack"""
        seen = set()
        todo = list(nodes)
        while todo:
            n = todo.pop()
            for x in V.walk(n):
                t = type(x).__name__
                if t == 'FuncApp' and x._funcname not in seen:
                    seen.add(x._funcname)
                    self.fn(x._funcname)
                elif t == 'MethodCall' and ('m', x._methodName) not in seen:
                    seen.add(('m', x._methodName))
                    m = self.methods[x._methodName]
                    todo.extend(list(m._pres) + list(m._posts))
                elif t == 'PredicateAccess' and ('p', x._predicateName) not in seen:
                    seen.add(('p', x._predicateName))
                    p = self.predicates.get(x._predicateName)
                    if p is not None and isinstance(p._body, V.Some):
                        todo.append(p._body.v)
        self.pump()

    def method(self, name, on_exit=None):
        m = self.methods[name]
        self.cur_member = m
        self.on_exit = on_exit
        self.failures = []
        self.lines, self.live, self.ends = set(), None, 0
        self.refutes = {id(x): [x, False] for x in V.walk(m._body.v) if type(x).__name__ == 'Refute'}
        t0 = time.time()
        if not isinstance(m._body, V.Some):
            return []
        self.predeclare(list(m._pres) + list(m._posts) + [m._body.v])
        self.push()
        try:
            st = State()
            for a in list(m._formalArgs) + list(m._formalReturns):
                st.store[a._name] = self.fresh(a._name, self.dom_sort(a._typ))
            for p in m._pres:
                self.cur = ('not.wellformed', p)
                self.produce(p, None, st)
            st.olds['old'] = dict(st.heap)
            # well-formedness of postconditions
            self.push()
            try:
                w = st.copy()
                w.heap = {}
                for r in m._formalReturns:
                    w.store[r._name] = self.fresh(r._name, self.dom_sort(r._typ))
                for p in m._posts:
                    self.cur = ('not.wellformed', p)
                    self.produce(p, None, w)
            except PathEnd:
                pass
            finally:
                self.pop()
            n = len(self.failures)
            if n:
                return self.dedupe()
            self.cur = ('internal', m)
            self.cur_body, self.rcache, self.jumps, self.loopmod = m._body.v, {}, 0, None
            r = self.s_Seqn(m._body.v, st, None)
            self.run(r[1], r[0])
        except PathEnd:
            pass
        finally:
            self.pop()
        for s, failed in self.refutes.values():
            if not failed:
                self.failures.append(Failure('refute.failed', s, 'refutation.true', s._exp))
        return self.dedupe()

    def function(self, name):
        """verify body well-definedness and postconditions of a function"""
        f = self.functions[name]
        self.failures = []
        if not isinstance(f._body, V.Some):
            body = None
        self.predeclare(list(f._pres) + list(f._posts) + ([f._body.v] if isinstance(f._body, V.Some) else []))
        # the function's own axioms must not be used for its own proof except through (limited) recursion
        self.push()
        try:
            args = [self.fresh(a._name, self.dom_sort(a._typ)) for a in f._formalArgs]
            st = State({a._name: t for a, t in zip(f._formalArgs, args)})
            s = self.fresh('s', SnapS) if self.heapdep(f) else None
            for p, sn in self.split_snap(f._pres, s):
                self.cur = ('not.wellformed', p)
                self.produce(p, sn, st)
            st.olds['old'] = dict(st.heap)
            if isinstance(f._body, V.Some):
                self.cur = ('function.not.wellformed', f)
                self.nests = []
                self.fun_mode = True
                self.term = self.start_term(f, st)
                b = self.ev(f._body.v, st)
                self.term = None
                self.fun_mode = False
                res = self.fresh('res', self.dom_sort(f._typ))
                self.assume(res == self.fit(b, res.sort()))
            else:
                res = self.fresh('res', self.dom_sort(f._typ))
            st.store['result'] = res
            for p in f._posts:
                if type(p).__name__.startswith('Decreases'):
                    continue
                if isinstance(f._body, V.Some):
                    self.cur = ('postcondition.violated', p)
                    self.consume(p, st, st)
                else:
                    self.cur = ('not.wellformed', p)
                    self.ev(p, st)
        except PathEnd:
            pass
        finally:
            self.pop()
        return self.dedupe()

    def predicate(self, name):
        p = self.predicates[name]
        self.failures = []
        if not isinstance(p._body, V.Some):
            return []
        self.predeclare([p._body.v])
        self.push()
        try:
            st = State({a._name: self.fresh(a._name, self.dom_sort(a._typ)) for a in p._formalArgs})
            self.cur = ('not.wellformed', p)
            self.produce(p._body.v, None, st)
        except PathEnd:
            pass
        finally:
            self.pop()
        return self.dedupe()

    def dedupe(self):
        out, seen = [], set()
        for f in self.failures:
            k = f.key
            if k not in seen:
                seen.add(k)
                out.append(f)
        self.failures = out
        return out
