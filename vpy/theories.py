"""Sorts and axiomatised collection theories (Seq/Set/Multiset/Map) used by the symbolic executor.

Axioms follow the standard Dafny/Silicon axiomatisation, each with explicit triggers, one instance per element sort.
"""
import z3

from . import vast as V

BoolS, IntS, RealS = z3.BoolSort(), z3.IntSort(), z3.RealSort()
RefS = z3.DeclareSort('$Ref')
SnapS = z3.DeclareSort('$Snap')
NULL = z3.Const('$null', RefS)
UNIT = z3.Const('$unit', SnapS)


def FA(vs, pats, body, qid=None):
    ps = []
    for p in pats:
        ps.append(z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p)
    return z3.ForAll(vs, body, patterns=ps, qid=qid or '')


class Theories:
    """lazily created sorts / functions / axioms; `emit` receives axioms"""

    def __init__(self, emit):
        self.emit = emit
        self.sorts = {}
        self.inst = {}
        self.fns = {}
        self.boxes = {}
        self.pair = z3.Function('$pair', SnapS, SnapS, SnapS)
        self.fst_ = z3.Function('$fst', SnapS, SnapS)
        self.snd_ = z3.Function('$snd', SnapS, SnapS)
        a, b = z3.Consts('a b', SnapS)
        emit(FA([a, b], [self.pair(a, b)], z3.And(self.fst_(self.pair(a, b)) == a, self.snd_(self.pair(a, b)) == b)))
        self.domtypes = {}  # domain name -> interpretation (z3 sort) or None

    # ---------------------------------------------------------------- snapshots
    def mkpair(self, a, b):
        if z3.is_app(a) and z3.is_app(b) and a.decl().name() == '$fst' and b.decl().name() == '$snd' \
                and a.arg(0).eq(b.arg(0)):
            return a.arg(0)
        return self.pair(a, b)

    def fst(self, s):
        if s.decl().name() == '$pair':
            return s.arg(0)
        return self.fst_(s)

    def snd(self, s):
        if s.decl().name() == '$pair':
            return s.arg(1)
        return self.snd_(s)

    def _box(self, sort):
        n = str(sort.sexpr())
        if n not in self.boxes:
            bx = z3.Function('$box<%s>' % n, sort, SnapS)
            ub = z3.Function('$unbox<%s>' % n, SnapS, sort)
            self.boxes[n] = (bx, ub)
            x = z3.Const('x', sort)
            s = z3.Const('s', SnapS)
            self.emit(FA([x], [bx(x)], ub(bx(x)) == x))
            self.emit(FA([s], [ub(s)], bx(ub(s)) == s))
        return self.boxes[n]

    def box(self, t):
        if t.sort() == SnapS:
            return t
        bx, ub = self._box(t.sort())
        if z3.is_app(t) and t.decl() == ub:
            return t.arg(0)
        return bx(t)

    def unbox(self, s, sort):
        if sort == SnapS:
            return s
        bx, ub = self._box(sort)
        if z3.is_app(s) and s.decl() == bx:
            return s.arg(0)
        return ub(s)

    # ---------------------------------------------------------------- sorts
    def sort(self, t, tv=None):
        n = type(t).__name__
        if isinstance(t, V.Singleton):
            return {'Int': IntS, 'Bool': BoolS, 'Ref': RefS, 'Perm': RealS}[t.name]
        if n == 'TypeVar':
            if tv and t._name in tv:
                return tv[t._name]
            return IntS     # silicon instantiates unconstrained type variables with Int
        if n == 'SeqType': return self.seq(self.sort(t._elementType, tv)).S
        if n == 'SetType': return self.set(self.sort(t._elementType, tv)).S
        if n == 'MultisetType': return self.mset(self.sort(t._elementType, tv)).S
        if n == 'MapType': return self.map(self.sort(t._keyType, tv), self.sort(t._valueType, tv)).S
        if n == 'DomainType':
            name = t._domainName
            if self.domtypes.get(name) is not None:
                return self.domtypes[name]
            m = t._partialTypVarsMap
            key = name
            if m is not None and len(t._typeParameters or ()):
                key += '<%s>' % ','.join(
                    str(self.sort(m.d.get(p, p) if not isinstance(p, V.TypeVar) else m.d.get(p, p), tv).sexpr())
                    for p in t._typeParameters)
            if key not in self.sorts:
                self.sorts[key] = z3.DeclareSort(key)
            return self.sorts[key]
        raise NotImplementedError('type %r' % t)

    def _get(self, kind, cls, *sorts):
        key = (kind,) + tuple(str(s.sexpr()) for s in sorts)
        if key not in self.inst:
            o = cls.__new__(cls)
            self.inst[key] = o
            o.__init__(self, *sorts)
        return self.inst[key]

    def seq(self, e): return self._get('seq', SeqT, e)
    def set(self, e): return self._get('set', SetT, e)
    def mset(self, e): return self._get('mset', MSetT, e)
    def map(self, k, v): return self._get('map', MapT, k, v)

    def coll(self, sort):
        for o in self.inst.values():
            if getattr(o, 'S', None) == sort:
                return o
        return None


class SeqT:
    kind = 'seq'

    def __init__(self, th, E):
        n = str(E.sexpr()).replace(' ', '_')
        self.E = E
        S = self.S = z3.DeclareSort('Seq<%s>' % n)
        F = lambda f, *s: z3.Function('Seq_%s<%s>' % (f, n), *s)
        self.len = F('length', S, IntS)
        self.empty = z3.Const('Seq_empty<%s>' % n, S)
        self.single = F('singleton', E, S)
        self.app = F('append', S, S, S)
        self.idx = F('index', S, IntS, E)
        self.upd = F('update', S, IntS, E, S)
        self.take = F('take', S, IntS, S)
        self.drop = F('drop', S, IntS, S)
        self.has = F('contains', S, E, BoolS)
        self.hast = F('contains_trigger', S, E, BoolS)
        self.sk = F('skolem', S, E, IntS)
        self.eq = F('equal', S, S, BoolS)
        self.skeq = F('skolem_diff', S, S, IntS)
        s, t = z3.Consts('s t', S)
        e = z3.Const('e', E)
        i, j, k = z3.Ints('i j k')
        em = th.emit
        ln, ix = self.len, self.idx
        em(FA([s], [ln(s)], ln(s) >= 0))
        em(ln(self.empty) == 0)
        em(FA([s], [ln(s)], z3.Implies(ln(s) == 0, s == self.empty)))
        em(FA([e], [self.single(e)], z3.And(ln(self.single(e)) == 1, ix(self.single(e), 0) == e)))
        ap = self.app(s, t)
        em(FA([s, t], [ap], z3.And(ln(ap) == ln(s) + ln(t), z3.Implies(s == self.empty, ap == t),
                                   z3.Implies(t == self.empty, ap == s))))
        em(FA([s, t, i], [ix(ap, i), [ix(s, i), ap]],
              z3.Implies(z3.And(0 <= i, i < ln(s)), ix(ap, i) == ix(s, i))))
        em(FA([s, t, i], [ix(ap, i)],
              z3.Implies(z3.And(ln(s) <= i, i < ln(s) + ln(t)), ix(ap, i) == ix(t, i - ln(s)))))
        em(FA([s, t, i], [[ix(t, i), ap]],
              z3.Implies(z3.And(0 <= i, i < ln(t)), ix(ap, i + ln(s)) == ix(t, i))))
        up = self.upd(s, i, e)
        em(FA([s, i, e], [up], z3.And(ln(up) == ln(s),
                                      z3.Implies(z3.And(0 <= i, i < ln(s)), ix(up, i) == e))))
        em(FA([s, i, e, j], [ix(up, j), [ix(s, j), up]],
              z3.Implies(z3.And(0 <= j, j < ln(s), j != i), ix(up, j) == ix(s, j))))
        h = self.has(s, e)
        sk = self.sk(s, e)
        em(FA([s, e], [h], z3.Implies(h, z3.And(0 <= sk, sk < ln(s), ix(s, sk) == e))))
        em(FA([s, e, i], [[h, ix(s, i)]],
              z3.Implies(z3.And(0 <= i, i < ln(s), ix(s, i) == e), h)))
        em(FA([s, i], [ix(s, i)], z3.Implies(z3.And(0 <= i, i < ln(s)), self.has(s, ix(s, i)))))
        em(FA([s, t, e], [self.has(ap, e)], self.has(ap, e) == z3.Or(self.has(s, e), self.has(t, e))))
        em(FA([e, ], [self.single(e)], self.has(self.single(e), e)))
        f = z3.Const('f', E)
        em(FA([e, f], [self.has(self.single(e), f)], self.has(self.single(e), f) == (e == f)))
        em(FA([e], [self.has(self.empty, e)], z3.Not(self.has(self.empty, e))))
        tk = self.take(s, j)
        em(FA([s, j], [tk], z3.And(z3.Implies(j <= 0, tk == self.empty), z3.Implies(j >= ln(s), tk == s),
                                   z3.Implies(z3.And(0 <= j, j <= ln(s)), ln(tk) == j))))
        em(FA([s, j, i], [ix(tk, i), [ix(s, i), tk]],
              z3.Implies(z3.And(0 <= i, i < j, i < ln(s)), ix(tk, i) == ix(s, i))))
        dr = self.drop(s, j)
        em(FA([s, j], [dr], z3.And(z3.Implies(j <= 0, dr == s), z3.Implies(j >= ln(s), dr == self.empty),
                                   z3.Implies(z3.And(0 <= j, j <= ln(s)), ln(dr) == ln(s) - j))))
        em(FA([s, j, i], [ix(dr, i)],
              z3.Implies(z3.And(0 <= i, 0 <= j, i < ln(s) - j), ix(dr, i) == ix(s, i + j))))
        em(FA([s, j, i], [[ix(s, i), dr]],
              z3.Implies(z3.And(0 <= j, j <= i, i < ln(s)), ix(dr, i - j) == ix(s, i))))
        # take/drop commute with append / update (as in the standard axiomatisation)
        em(FA([s, t, j], [self.take(ap, j)], z3.And(
            z3.Implies(z3.And(0 < j, j <= ln(s)), self.take(ap, j) == self.take(s, j)),
            z3.Implies(z3.And(j > ln(s), j < ln(s) + ln(t)), self.take(ap, j) == self.app(s, self.take(t, j - ln(s)))))))
        em(FA([s, t, j], [self.drop(ap, j)], z3.And(
            z3.Implies(z3.And(0 < j, j <= ln(s)), self.drop(ap, j) == self.app(self.drop(s, j), t)),
            z3.Implies(z3.And(j > ln(s), j < ln(s) + ln(t)), self.drop(ap, j) == self.drop(t, j - ln(s))))))
        q = self.eq(s, t)
        d = self.skeq(s, t)
        em(FA([s, t], [q], z3.And(z3.Implies(q, s == t), z3.Or(
            q, ln(s) != ln(t), z3.And(0 <= d, d < ln(s), ix(s, d) != ix(t, d))))))
        if E == IntS:
            self.range = F('range', IntS, IntS, S)
            r = self.range(i, j)
            em(FA([i, j], [r], z3.And(z3.Implies(i < j, ln(r) == j - i), z3.Implies(j <= i, r == self.empty))))
            em(FA([i, j, k], [ix(r, k)], z3.Implies(z3.And(0 <= k, k < j - i), ix(r, k) == i + k)))
            em(FA([i, j, k], [self.has(r, k)], self.has(r, k) == z3.And(i <= k, k < j)))


class SetT:
    kind = 'set'

    def __init__(self, th, E):
        n = str(E.sexpr()).replace(' ', '_')
        self.E = E
        S = self.S = z3.DeclareSort('Set<%s>' % n)
        F = lambda f, *s: z3.Function('Set_%s<%s>' % (f, n), *s)
        self.has = F('in', E, S, BoolS)
        self.card = F('card', S, IntS)
        self.empty = z3.Const('Set_empty<%s>' % n, S)
        self.single = F('singleton', E, S)
        self.union = F('union', S, S, S)
        self.inter = F('intersection', S, S, S)
        self.diff = F('difference', S, S, S)
        self.sub = F('subset', S, S, BoolS)
        self.eq = F('equal', S, S, BoolS)
        self.skd = F('skolem_diff', S, S, E)
        self.sks = F('skolem_sub', S, S, E)
        self.ske = F('skolem_elem', S, E)
        s, t = z3.Consts('s t', S)
        e, f = z3.Consts('e f', E)
        em, h, c = th.emit, self.has, self.card
        em(FA([s], [c(s)], c(s) >= 0))
        em(FA([e], [h(e, self.empty)], z3.Not(h(e, self.empty))))
        em(FA([s], [c(s)], z3.And((c(s) == 0) == (s == self.empty), z3.Or(c(s) == 0, h(self.ske(s), s)))))
        em(c(self.empty) == 0)
        em(FA([e], [self.single(e)], z3.And(h(e, self.single(e)), c(self.single(e)) == 1)))
        em(FA([e, f], [h(f, self.single(e))], h(f, self.single(e)) == (e == f)))
        u, n_, d = self.union(s, t), self.inter(s, t), self.diff(s, t)
        em(FA([s, t, e], [h(e, u), [u, h(e, s)], [u, h(e, t)]], h(e, u) == z3.Or(h(e, s), h(e, t))))
        em(FA([s, t, e], [h(e, n_), [n_, h(e, s)]], h(e, n_) == z3.And(h(e, s), h(e, t))))
        em(FA([s, t, e], [h(e, d), [d, h(e, s)]], h(e, d) == z3.And(h(e, s), z3.Not(h(e, t)))))
        em(FA([s, t], [c(u), c(n_)], c(u) + c(n_) == c(s) + c(t)))
        em(FA([s, t], [c(d)], z3.And(c(d) + c(self.inter(s, t)) == c(s),
                                     c(d) + c(self.diff(t, s)) + c(self.inter(s, t)) == c(self.union(s, t)))))
        us = self.union(s, self.single(e))
        em(FA([s, e], [us], z3.And(z3.Implies(h(e, s), z3.And(us == s, c(us) == c(s))),
                                   z3.Implies(z3.Not(h(e, s)), c(us) == c(s) + 1))))
        ds = self.diff(s, self.single(e))
        em(FA([s, e], [ds], z3.If(h(e, s), c(ds) == c(s) - 1, c(ds) == c(s))))
        b = self.sub(s, t)
        k = self.sks(s, t)
        em(FA([s, t, e], [[b, h(e, s)], [b, h(e, t)]], z3.Implies(z3.And(b, h(e, s)), h(e, t))))
        em(FA([s, t], [b], z3.Or(b, z3.And(h(k, s), z3.Not(h(k, t))))))
        q = self.eq(s, t)
        x = self.skd(s, t)
        em(FA([s, t], [q], z3.And(z3.Implies(q, s == t), z3.Or(q, h(x, s) != h(x, t)))))


class MSetT:
    kind = 'mset'

    def __init__(self, th, E):
        n = str(E.sexpr()).replace(' ', '_')
        self.E = E
        S = self.S = z3.DeclareSort('MSet<%s>' % n)
        F = lambda f, *s: z3.Function('MSet_%s<%s>' % (f, n), *s)
        self.cnt = F('count', E, S, IntS)
        self.card = F('card', S, IntS)
        self.empty = z3.Const('MSet_empty<%s>' % n, S)
        self.single = F('singleton', E, S)
        self.union = F('union', S, S, S)
        self.inter = F('intersection', S, S, S)
        self.diff = F('difference', S, S, S)
        self.sub = F('subset', S, S, BoolS)
        self.eq = F('equal', S, S, BoolS)
        self.skd = F('skolem_diff', S, S, E)
        s, t = z3.Consts('s t', S)
        e, f = z3.Consts('e f', E)
        em, h, c = th.emit, self.cnt, self.card
        em(FA([s], [c(s)], z3.And(c(s) >= 0, (c(s) == 0) == (s == self.empty))))
        em(FA([s, e], [h(e, s)], z3.And(h(e, s) >= 0, h(e, s) <= c(s))))
        em(FA([e], [h(e, self.empty)], h(e, self.empty) == 0))
        em(FA([e], [self.single(e)], z3.And(h(e, self.single(e)) == 1, c(self.single(e)) == 1)))
        em(FA([e, f], [h(f, self.single(e))], h(f, self.single(e)) == z3.If(e == f, z3.IntVal(1), z3.IntVal(0))))
        u, n_, d = self.union(s, t), self.inter(s, t), self.diff(s, t)
        mn = lambda a, b: z3.If(a < b, a, b)
        em(FA([s, t, e], [h(e, u), [u, h(e, s)], [u, h(e, t)]], h(e, u) == h(e, s) + h(e, t)))
        em(FA([s, t], [c(u)], c(u) == c(s) + c(t)))
        em(FA([s, t, e], [h(e, n_)], h(e, n_) == mn(h(e, s), h(e, t))))
        em(FA([s, t, e], [h(e, d)], h(e, d) == z3.If(h(e, s) > h(e, t), h(e, s) - h(e, t), z3.IntVal(0))))
        em(FA([s, t], [c(d)], c(d) + c(self.inter(s, t)) == c(s)))
        b = self.sub(s, t)
        k = self.skd(s, t)
        em(FA([s, t, e], [[b, h(e, s)]], z3.Implies(b, h(e, s) <= h(e, t))))
        em(FA([s, t], [b], z3.Or(b, h(k, s) > h(k, t))))
        q = self.eq(s, t)
        em(FA([s, t], [q], z3.And(z3.Implies(q, s == t), z3.Or(q, h(k, s) != h(k, t)))))


class MapT:
    kind = 'map'

    def __init__(self, th, K, VV):
        n = (str(K.sexpr()) + ',' + str(VV.sexpr())).replace(' ', '_')
        self.K, self.E = K, VV
        S = self.S = z3.DeclareSort('Map<%s>' % n)
        F = lambda f, *s: z3.Function('Map_%s<%s>' % (f, n), *s)
        ks, vs = th.set(K), th.set(VV)
        self.dom = F('domain', S, ks.S)
        self.get = F('lookup', S, K, VV)
        self.upd = F('update', S, K, VV, S)
        self.empty = z3.Const('Map_empty<%s>' % n, S)
        self.rng = F('range', S, vs.S)
        self.card = F('card', S, IntS)
        self.eq = F('equal', S, S, BoolS)
        self.skd = F('skolem_diff', S, S, K)
        self.skr = F('skolem_range', S, VV, K)
        m, m2 = z3.Consts('m m2', S)
        k, k2 = z3.Consts('k k2', K)
        v = z3.Const('v', VV)
        em = th.emit
        em(FA([m], [self.card(m)], self.card(m) == ks.card(self.dom(m))))
        em(self.dom(self.empty) == ks.empty)
        em(FA([k], [ks.has(k, self.dom(self.empty))], z3.Not(ks.has(k, self.dom(self.empty)))))
        em(FA([m], [self.dom(m)], z3.Implies(self.dom(m) == ks.empty, m == self.empty)))
        u = self.upd(m, k, v)
        em(FA([m, k, v], [u], z3.And(self.get(u, k) == v, self.dom(u) == ks.union(self.dom(m), ks.single(k)),
                                     ks.has(k, self.dom(u)))))
        em(FA([m, k, v, k2], [self.get(u, k2), [self.get(m, k2), u]],
              z3.Implies(k2 != k, self.get(u, k2) == self.get(m, k2))))
        em(FA([m, k, v, k2], [ks.has(k2, self.dom(u))],
              ks.has(k2, self.dom(u)) == z3.Or(k2 == k, ks.has(k2, self.dom(m)))))
        r = vs.has(v, self.rng(m))
        sk = self.skr(m, v)
        em(FA([m, v], [r], z3.Implies(r, z3.And(ks.has(sk, self.dom(m)), self.get(m, sk) == v))))
        em(FA([m, k], [[self.get(m, k), self.rng(m)]],
              z3.Implies(ks.has(k, self.dom(m)), vs.has(self.get(m, k), self.rng(m)))))
        q = self.eq(m, m2)
        d = self.skd(m, m2)
        em(FA([m, m2], [q], z3.And(z3.Implies(q, m == m2), z3.Or(
            q, ks.has(d, self.dom(m)) != ks.has(d, self.dom(m2)),
            z3.And(ks.has(d, self.dom(m)), self.get(m, d) != self.get(m2, d))))))
