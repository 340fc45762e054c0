"""Recursive-descent parser + typer for the Viper prelude files (resources/*.sil) of the
repository under test.  Produces the node classes of vast.py.  Regenerated on every run from the
files in /repo, so a change to a prelude file changes what is checked."""
import os
import re
from . import vast as V
from .vast import ScalaSeq as S, Some, NONE, Int, Bool, Ref, Perm, BigInt, ScalaMap

TOK = re.compile(r'''
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
 |(?P<str>"[^"]*")
 |(?P<num>\d+)
 |(?P<id>[A-Za-z_$][A-Za-z0-9_$]*)
 |(?P<op><==>|==>|--\*|:=|::|\.\.|==|!=|<=|>=|&&|\|\||\+\+|[-+*/\\%<>!?:.,;(){}\[\]|@=])
''', re.X | re.S)

KW = set('domain function method predicate field import define axiom unique interpretation requires ensures decreases '
         'returns if'.split())


class ParseError(Exception):
    pass


class Parser:
    def __init__(self, text, fname='<sil>'):
        self.toks = []
        self.fname = fname
        i = 0
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise ParseError('%s: cannot tokenize at %r' % (fname, text[i:i + 30]))
            if m.lastgroup != 'ws':
                self.toks.append((m.lastgroup, m.group(), text.count('\n', 0, i) + 1))
            i = m.end()
        self.toks.append(('eof', '', -1))
        self.i = 0

    # -- token helpers
    @property
    def t(self): return self.toks[self.i][1]
    @property
    def k(self): return self.toks[self.i][0]
    def peek(self, n=1): return self.toks[self.i + n][1]
    def err(self, m): raise ParseError('%s:%s: %s near %r' % (self.fname, self.toks[self.i][2], m, self.t))
    def accept(self, x):
        if self.t == x and self.k != 'str':
            self.i += 1
            return True
        return False
    def expect(self, x):
        if not self.accept(x):
            self.err('expected %r' % x)
    def ident(self):
        if self.k != 'id':
            self.err('identifier expected')
        self.i += 1
        return self.toks[self.i - 1][1]

    # -- program
    def program(self):
        out = []
        while self.k != 'eof':
            out.append(self.member())
            self.accept(';')
        return [m for m in out if m is not None]

    def annot(self):
        while self.t == '@' :
            self.i += 1
            self.ident()
            self.expect('(')
            while not self.accept(')'):
                self.i += 1

    def member(self):
        self.annot()
        if self.accept('import'):
            if self.accept('<'):
                p = ''
                while not self.accept('>'):
                    p += self.t
                    self.i += 1
                return ('import_std', p)
            p = self.t.strip('"')
            self.i += 1
            return ('import', p)
        if self.accept('define'):
            n = self.ident()
            args = []
            if self.t == '(' and False:
                pass
            e = self.expr()
            return ('define', n, e)
        if self.accept('field'):
            n = self.ident()
            self.expect(':')
            return ('field', n, self.type())
        if self.accept('domain'):
            return self.domain()
        if self.accept('function'):
            return self.function()
        if self.accept('method'):
            return self.method()
        if self.accept('predicate'):
            n = self.ident()
            a = self.formals()
            b = None
            if self.accept('{'):
                b = self.expr()
                self.expect('}')
            return ('predicate', n, a, b)
        self.err('member expected')

    def interp(self):
        if not self.accept('interpretation'):
            return None
        if self.k == 'str':
            self.i += 1
            return self.toks[self.i - 1][1].strip('"')
        self.expect('(')
        d = {}
        while True:
            k = self.ident()
            self.expect(':')
            d[k] = self.t.strip('"')
            self.i += 1
            if not self.accept(','):
                break
        self.expect(')')
        return d

    def domain(self):
        n = self.ident()
        tv = []
        if self.accept('['):
            while True:
                tv.append(self.ident())
                if not self.accept(','):
                    break
            self.expect(']')
        it = self.interp()
        self.expect('{')
        fs, axs = [], []
        while not self.accept('}'):
            self.annot()
            if self.accept('axiom'):
                an = self.ident() if self.k == 'id' else None
                self.expect('{')
                e = self.expr()
                self.expect('}')
                axs.append((an, e))
            else:
                u = self.accept('unique')
                self.expect('function')
                fn = self.ident()
                a = self.formals(anon=True)
                self.expect(':')
                t = self.type()
                fs.append((fn, a, t, u, self.interp()))
            self.accept(';')
        return ('domain', n, tv, it, fs, axs)

    def formals(self, anon=False):
        self.expect('(')
        out = []
        while not self.accept(')'):
            if anon and not (self.k == 'id' and self.peek() == ':'):
                out.append(('_%d' % len(out), self.type()))
            else:
                n = self.ident()
                self.expect(':')
                out.append((n, self.type()))
            self.accept(',')
        return out

    def type(self):
        n = self.ident()
        args = []
        if self.accept('['):
            while True:
                args.append(self.type())
                if not self.accept(','):
                    break
            self.expect(']')
        return ('ty', n, args)

    def specs(self):
        pres, posts, decr = [], [], []
        while True:
            if self.accept('requires'):
                pres.append(self.expr())
            elif self.accept('ensures'):
                posts.append(self.expr())
            elif self.accept('decreases'):
                if self.accept('_'):
                    decr.append(('wild', None))
                elif self.accept('*'):
                    decr.append(('star',))
                else:
                    es = []
                    if self.t not in ('requires', 'ensures', '{', 'decreases', 'if', 'method', 'function', ''):
                        es.append(self.expr())
                        while self.accept(','):
                            es.append(self.expr())
                    decr.append(('tuple', es))
                if self.accept('if'):
                    self.expr()
            else:
                self.accept(';')
                if self.t not in ('requires', 'ensures', 'decreases'):
                    return pres, posts, decr

    def function(self):
        n = self.ident()
        a = self.formals()
        self.expect(':')
        t = self.type()
        pres, posts, decr = self.specs()
        b = None
        if self.accept('{'):
            b = self.expr()
            self.expect('}')
        return ('function', n, a, t, pres, posts, decr, b)

    def method(self):
        n = self.ident()
        a = self.formals()
        r = []
        if self.accept('returns'):
            r = self.formals()
        pres, posts, decr = self.specs()
        b = None
        if self.accept('{'):
            b = []
            while not self.accept('}'):
                w = self.ident()
                if w in ('assume', 'inhale', 'assert', 'exhale'):
                    b.append((w, self.expr()))
                else:
                    self.err('unsupported prelude statement')
                self.accept(';')
        return ('method', n, a, r, pres, posts, decr, b)

    # -- expressions  (loosest to tightest:  ?: , <==> , ==> , || , && , ==/!= , cmp/in , +/-/++/union.. , * / \ % , unary , suffix)
    def expr(self):
        c = self.iff()
        if self.accept('?'):
            a = self.expr()
            self.expect(':')
            b = self.expr()
            return ('cond', c, a, b)
        return c

    def iff(self):
        l = self.imp()
        while self.accept('<==>'):
            l = ('bin', '==', l, self.imp())
        return l

    def imp(self):
        l = self.or_()
        if self.accept('==>'):
            return ('bin', '==>', l, self.imp())
        return l

    def or_(self):
        l = self.and_()
        if self.accept('||'):
            return ('bin', '||', l, self.or_())
        return l

    def and_(self):
        l = self.eq()
        if self.accept('&&'):
            return ('bin', '&&', l, self.and_())
        return l

    def eq(self):
        l = self.cmp()
        if self.t in ('==', '!='):
            o = self.t
            self.i += 1
            return ('bin', o, l, self.eq())
        return l

    def cmp(self):
        l = self.sum()
        if self.t in ('<', '<=', '>', '>=', 'in', 'subset') and self.k != 'str':
            parts = [l]
            ops = []
            while self.t in ('<', '<=', '>', '>=', 'in', 'subset'):
                ops.append(self.t)
                self.i += 1
                parts.append(self.sum())
            r = None
            for j, o in enumerate(ops):
                x = ('bin', o, parts[j], parts[j + 1])
                r = x if r is None else ('bin', '&&', r, x)
            return r
        return l

    def sum(self):
        l = self.term()
        while self.t in ('+', '-', '++', 'union', 'intersection', 'setminus'):
            o = self.t
            self.i += 1
            l = ('bin', o, l, self.term())
        return l

    def term(self):
        l = self.unary()
        while self.t in ('*', '/', '\\', '%'):
            o = self.t
            self.i += 1
            l = ('bin', o, l, self.unary())
        return l

    def unary(self):
        if self.accept('!'):
            return ('un', '!', self.unary())
        if self.accept('-'):
            return ('un', '-', self.unary())
        return self.suffix(self.atom())

    def suffix(self, e):
        while True:
            if self.t == '.' and self.k != 'str':
                self.i += 1
                e = ('field', e, self.ident())
            elif self.t == '[':
                self.i += 1
                if self.accept('..'):
                    e = ('take', e, self.expr())
                    self.expect(']')
                    continue
                a = self.expr()
                if self.accept(':='):
                    b = self.expr()
                    self.expect(']')
                    e = ('update', e, a, b)
                elif self.accept('..'):
                    if self.accept(']'):
                        e = ('drop', e, a)
                    else:
                        b = self.expr()
                        self.expect(']')
                        e = ('drop', ('take', e, b), a)
                else:
                    self.expect(']')
                    e = ('index', e, a)
            else:
                return e

    def args(self):
        self.expect('(')
        out = []
        while not self.accept(')'):
            a = self.expr()
            if self.accept(':='):
                a = ('maplet', a, self.expr())
            out.append(a)
            self.accept(',')
        return out

    def atom(self):
        if self.t == '@' and self.k == 'op':
            self.i += 1
            an = self.ident()
            self.expect('(')
            vals = []
            while not self.accept(')'):
                vals.append(self.t.strip('"'))
                self.i += 1
            return ('annot', an, vals, self.unary())
        if self.k == 'num':
            self.i += 1
            return ('int', int(self.toks[self.i - 1][1]))
        if self.accept('('):
            e = self.expr()
            self.expect(')')
            return e
        if self.accept('|'):
            e = self.expr()
            self.expect('|')
            return ('card', e)
        if self.accept('['):
            a = self.expr()
            if self.accept('..'):
                b = self.expr()
                self.expect(')')
                return ('range', a, b)
            self.expect(',')
            b = self.expr()
            self.expect(']')
            return ('inhex', a, b)
        if self.k == 'id':
            n = self.t
            if n in ('forall', 'exists'):
                self.i += 1
                vs = []
                while True:
                    v = self.ident()
                    self.expect(':')
                    vs.append((v, self.type()))
                    if not self.accept(','):
                        break
                self.expect('::')
                trs = []
                while self.t == '{':
                    self.i += 1
                    tr = []
                    while not self.accept('}'):
                        tr.append(self.expr())
                        self.accept(',')
                    trs.append(tr)
                return (n, vs, trs, self.expr())
            if n == 'let':
                self.i += 1
                v = self.ident()
                self.expect('==')
                self.expect('(')
                e = self.expr()
                self.expect(')')
                self.expect('in')
                return ('let', v, e, self.expr())
            if n in ('true', 'false', 'null', 'write', 'none', 'wildcard', 'result'):
                self.i += 1
                return ('lit', n)
            if n == 'acc':
                a = (self.ident(), self.args())[1]
                return ('acc', a[0], a[1] if len(a) > 1 else None)
            if n == 'old':
                self.i += 1
                lab = None
                if self.accept('['):
                    lab = self.ident()
                    self.expect(']')
                a = self.args()
                return ('old', lab, a[0])
            if n == 'unfolding':
                self.i += 1
                a = self.unary()
                self.expect('in')
                return ('unfolding', a, self.expr())
            if n in ('Seq', 'Set', 'Multiset', 'Map'):
                self.i += 1
                tys = []
                if self.accept('['):
                    while True:
                        tys.append(self.type())
                        if not self.accept(','):
                            break
                    self.expect(']')
                return ('coll', n, tys, self.args())
            if n in ('domain', 'range') and self.peek() == '(':
                self.i += 1
                return (n + '_of', self.args()[0])
            self.i += 1
            if self.t == '(' :
                return ('call', n, self.args())
            return ('var', n)
        self.err('expression expected')


# ------------------------------------------------------------------------------ elaboration
class Elab:
    def __init__(self, members):
        self.m = members
        self.defines = {}
        self.domains = {}
        self.funcs = {}
        self.dfuncs = {}
        self.fields = {}
        self.preds = {}

    def ty(self, t, tvs=()):
        _, n, a = t
        if n in ('Int', 'Bool', 'Ref', 'Perm'):
            return {'Int': Int, 'Bool': Bool, 'Ref': Ref, 'Perm': Perm}[n]
        if n == 'Rational':
            return Perm
        if n == 'Seq': return V.SeqType(self.ty(a[0], tvs))
        if n == 'Set': return V.SetType(self.ty(a[0], tvs))
        if n == 'Multiset': return V.MultisetType(self.ty(a[0], tvs))
        if n == 'Map': return V.MapType(self.ty(a[0], tvs), self.ty(a[1], tvs))
        if n in tvs: return V.TypeVar(n)
        if n in self.domains:
            return V.DomainType(n, ScalaMap(), S([]))
        raise ParseError('unknown type ' + n)

    def run(self):
        dom, fld, fun, prd, met = [], [], [], [], []
        for m in self.m:
            if m[0] == 'define':
                self.defines[m[1]] = m[2]
            elif m[0] == 'domain':
                self.domains[m[1]] = m
        for m in self.m:
            if m[0] == 'domain':
                for fn, a, t, u, it in m[4]:
                    self.dfuncs[fn] = (m[1], [self.ty(x[1], m[2]) for x in a], self.ty(t, m[2]), it, m[2])
            elif m[0] == 'function':
                self.funcs[m[1]] = ([self.ty(x[1]) for x in m[2]], self.ty(m[3]))
            elif m[0] == 'field':
                self.fields[m[1]] = V.Field(m[1], self.ty(m[2]))
            elif m[0] == 'predicate':
                self.preds[m[1]] = m
        for m in self.m:
            if m[0] == 'domain':
                n, tvs = m[1], m[2]
                fs = [V.DomainFunc(fn, S([V.LocalVarDecl(an, self.ty(at, tvs)) for an, at in a]), self.ty(t, tvs), u,
                                   Some(it) if it else NONE, V.NoPosition, V.NoInfo, n, V.NoTrafos)
                      for fn, a, t, u, it in m[4]]
                axs = []
                for an, e in m[5]:
                    self.tvs = tvs
                    ee = self.ex(e, {}, Bool)
                    if an:
                        axs.append(V.NamedDomainAxiom(an, ee, V.NoPosition, V.NoInfo, n, V.NoTrafos))
                    else:
                        axs.append(V.AnonymousDomainAxiom(ee, V.NoPosition, V.NoInfo, n, V.NoTrafos))
                dom.append(V.Domain(n, S(fs), S(axs), S([V.TypeVar(x) for x in tvs]), Some(ScalaMap(m[3])) if m[3] else NONE))
            elif m[0] == 'field':
                fld.append(self.fields[m[1]])
            elif m[0] == 'function':
                _, n, a, t, pres, posts, decr, b = m
                self.tvs = ()
                env = {an: self.ty(at) for an, at in a}
                self.result = self.ty(t)
                pr = [self.ex(p, env, Bool) for p in pres] + self.decr(decr, env)
                po = [self.ex(p, env, Bool) for p in posts]
                fun.append(V.Function(n, S([V.LocalVarDecl(an, self.ty(at)) for an, at in a]), self.ty(t), S(pr), S(po),
                                      Some(self.ex(b, env, self.ty(t))) if b is not None else NONE))
            elif m[0] == 'method':
                _, n, a, r, pres, posts, decr, b = m
                self.tvs = ()
                env = {an: self.ty(at) for an, at in a + r}
                pr = [self.ex(p, env, Bool) for p in pres] + self.decr(decr, env)
                po = [self.ex(p, env, Bool) for p in posts]
                body = NONE
                if b is not None:
                    cl = {'assume': V.Assume, 'inhale': V.Inhale, 'assert': V.Assert, 'exhale': V.Exhale}
                    body = Some(V.Seqn(S([cl[w](self.ex(x, env, Bool)) for w, x in b]), S([])))
                met.append(V.Method(n, S([V.LocalVarDecl(x, self.ty(y)) for x, y in a]),
                                    S([V.LocalVarDecl(x, self.ty(y)) for x, y in r]), S(pr), S(po), body))
            elif m[0] == 'predicate':
                _, n, a, b = m
                self.tvs = ()
                env = {an: self.ty(at) for an, at in a}
                prd.append(V.Predicate(n, S([V.LocalVarDecl(x, self.ty(y)) for x, y in a]),
                                       Some(self.ex(b, env, Bool)) if b is not None else NONE))
        return V.Program(S(dom), S(fld), S(fun), S(prd), S(met), S([]))

    def decr(self, ds, env):
        out = []
        for d in ds:
            if d[0] == 'wild':
                out.append(V.DecreasesWildcard(NONE))
            elif d[0] == 'star':
                out.append(V.DecreasesStar())
            else:
                out.append(V.DecreasesTuple(S([self.ex(e, env, None) for e in d[1]]), NONE))
        return out

    def info(self, annots):
        return V.AnnotationInfo(ScalaMap({k: S(v) for k, v in annots})) if annots else V.NoInfo

    def ex(self, e, env, exp=None, info=None):
        k = e[0]
        r = self._ex(e, env, exp)
        return r

    def unify(self, formal, actual, sub):
        if isinstance(formal, V.TypeVar):
            sub.setdefault(formal._name, actual)
        elif isinstance(formal, V.Type_) and type(formal) is type(actual):
            for f in formal.FIELDS:
                a, b = getattr(formal, '_' + f), getattr(actual, '_' + f)
                if isinstance(a, (V.Type_, V.TypeObj)):
                    self.unify(a, b, sub)

    def subst(self, t, sub):
        if isinstance(t, V.TypeVar):
            return sub.get(t._name, t)
        if isinstance(t, (V.SeqType, V.SetType, V.MultisetType)):
            return type(t)(self.subst(t._elementType, sub))
        if isinstance(t, V.MapType):
            return V.MapType(self.subst(t._keyType, sub), self.subst(t._valueType, sub))
        return t

    def _ex(self, e, env, exp):
        k = e[0]
        X = lambda a, t=None: self._ex(a, env, t)
        if k == 'annot':
            r = X(e[3], exp)
            if e[1] == 'error':
                inf = V.AnnotationInfo(ScalaMap({e[1]: S(e[2])}))
                old = r._info
                r._info = inf if old is V.NoInfo else V.ConsInfo(inf, old)
            return r
        if k == 'int':
            return V.IntLit(BigInt(e[1]))
        if k == 'lit':
            n = e[1]
            if n == 'result':
                return V.Result(self.result)
            return {'true': V.TrueLit, 'false': V.FalseLit, 'null': V.NullLit, 'write': V.FullPerm, 'none': V.NoPerm,
                    'wildcard': V.WildcardPerm}[n]()
        if k == 'var':
            n = e[1]
            if n in env:
                return V.LocalVar(n, env[n])
            if n in self.defines:
                return X(self.defines[n], exp)
            raise ParseError('unknown variable ' + n)
        if k == 'cond':
            return V.CondExp(X(e[1], Bool), X(e[2], exp), X(e[3], exp))
        if k == 'un':
            if e[1] == '!':
                return V.Not(X(e[2], Bool))
            x = X(e[2])
            return V.PermMinus(x) if x.typ() is Perm else V.Minus(x)
        if k == 'field':
            return V.FieldAccess(X(e[1]), self.fields[e[2]])
        if k == 'take':
            return V.SeqTake(X(e[1]), X(e[2]))
        if k == 'drop':
            return V.SeqDrop(X(e[1]), X(e[2]))
        if k == 'index':
            b = X(e[1])
            if isinstance(b.typ(), V.MapType):
                return V.MapLookup(b, X(e[2]))
            return V.SeqIndex(b, X(e[2]))
        if k == 'update':
            b = X(e[1])
            if isinstance(b.typ(), V.MapType):
                return V.MapUpdate(b, X(e[2]), X(e[3]))
            return V.SeqUpdate(b, X(e[2]), X(e[3]))
        if k == 'card':
            b = X(e[1])
            t = b.typ()
            return (V.SeqLength if isinstance(t, V.SeqType) else V.MapCardinality if isinstance(t, V.MapType)
                    else V.AnySetCardinality)(b)
        if k == 'range':
            return V.RangeSeq(X(e[1]), X(e[2]))
        if k == 'inhex':
            return V.InhaleExhaleExp(X(e[1]), X(e[2]))
        if k in ('forall', 'exists'):
            env2 = dict(env)
            vs = []
            for v, t in e[1]:
                env2[v] = self.ty(t, self.tvs)
                vs.append(V.LocalVarDecl(v, env2[v]))
            trs = [V.Trigger(S([self._ex(x, env2, None) for x in tr])) for tr in e[2]]
            return (V.Forall if k == 'forall' else V.Exists)(S(vs), S(trs), self._ex(e[3], env2, Bool))
        if k == 'let':
            v = X(e[2])
            env2 = dict(env)
            env2[e[1]] = v.typ()
            return V.Let(V.LocalVarDecl(e[1], v.typ()), v, self._ex(e[3], env2, exp))
        if k == 'acc':
            loc = X(e[1])
            p = Some(X(e[2], Perm)) if e[2] is not None else NONE
            if isinstance(loc, V.PredicateAccess):
                return V.PredicateAccessPredicate(loc, p)
            return V.FieldAccessPredicate(loc, p)
        if k == 'old':
            if e[1]:
                return V.LabelledOld(X(e[2], exp), e[1])
            return V.Old(X(e[2], exp))
        if k == 'coll':
            kind, tys, args = e[1], e[2], e[3]
            et = self.ty(tys[0], self.tvs) if tys else None
            if kind == 'Map':
                if not args:
                    if tys:
                        return V.EmptyMap(et, self.ty(tys[1], self.tvs))
                    return V.EmptyMap(exp._keyType, exp._valueType)
                return V.ExplicitMap(S([V.Maplet(X(a[1]), X(a[2])) for a in args]))
            if not args:
                if et is None:
                    if exp is None:
                        raise ParseError('cannot type empty ' + kind)
                    et = exp._elementType
                return {'Seq': V.EmptySeq, 'Set': V.EmptySet, 'Multiset': V.EmptyMultiset}[kind](et)
            return {'Seq': V.ExplicitSeq, 'Set': V.ExplicitSet, 'Multiset': V.ExplicitMultiset}[kind](
                S([X(a, et) for a in args]))
        if k == 'domain_of': return V.MapDomain(X(e[1]))
        if k == 'range_of': return V.MapRange(X(e[1]))
        if k == 'call':
            n = e[1]
            if n in self.dfuncs:
                dn, ats, rt, it, tvs = self.dfuncs[n]
                args = [X(a, t if not tvs else None) for a, t in zip(e[2], ats)]
                if it:
                    return V.BackendFuncApp(n, S(args), V.NoPosition, V.NoInfo, rt, it, V.NoTrafos)
                sub = {}
                for f, a in zip(ats, args):
                    self.unify(f, a.typ(), sub)
                return V.DomainFuncApp(n, S(args), ScalaMap({V.TypeVar(k2): v2 for k2, v2 in sub.items()}), V.NoPosition,
                                       V.NoInfo, self.subst(rt, sub), dn, V.NoTrafos)
            if n in self.funcs:
                ats, rt = self.funcs[n]
                args = [X(a, t) for a, t in zip(e[2], ats)]
                if len(args) != len(ats):
                    raise ParseError('arity of ' + n)
                return V.FuncApp(n, S(args), V.NoPosition, V.NoInfo, rt, V.NoTrafos)
            if n in self.preds:
                return V.PredicateAccess(S([X(a) for a in e[2]]), n)
            raise ParseError('unknown function ' + n)
        if k == 'bin':
            o = e[1]
            if o in ('==', '!='):
                try:
                    l = X(e[2])
                    r = X(e[3], l.typ())
                except (ParseError, AttributeError):
                    r = X(e[3])
                    l = X(e[2], r.typ())
                return (V.EqCmp if o == '==' else V.NeCmp)(l, r)
            if o in ('&&', '||', '==>'):
                return {'&&': V.And, '||': V.Or, '==>': V.Implies}[o](X(e[2], Bool), X(e[3], Bool))
            if o in ('++', 'union', 'intersection', 'setminus', 'subset'):
                l = X(e[2], exp)
                r = X(e[3], l.typ())
                return {'++': V.SeqAppend, 'union': V.AnySetUnion, 'intersection': V.AnySetIntersection,
                        'setminus': V.AnySetMinus, 'subset': V.AnySetSubset}[o](l, r)
            l, r = X(e[2]), X(e[3])
            if o == 'in':
                t = r.typ()
                if isinstance(t, V.SeqType): return V.SeqContains(l, r)
                if isinstance(t, V.MapType): return V.MapContains(l, r)
                c = V.AnySetContains(l, r)
                return c
            perm = Perm in (l.typ(), r.typ())
            if o in ('<', '<=', '>', '>='):
                nm = {'<': 'Lt', '<=': 'Le', '>': 'Gt', '>=': 'Ge'}[o]
                return getattr(V, ('Perm' if perm else '') + nm + 'Cmp')(l, r)
            if o == '/':
                if l.typ() is Perm:
                    return (V.PermPermDiv if r.typ() is Perm else V.PermDiv)(l, r)
                # Int / Int : fraction when a permission is expected, otherwise integer division
                if exp is Perm:
                    return V.FractionalPerm(l, r)
                return V.Div(l, r)
            if o == '\\': return V.Div(l, r)
            if o == '%': return V.Mod(l, r)
            if perm:
                if o == '*':
                    return V.PermMul(l, r) if l.typ() is Perm and r.typ() is Perm else V.IntPermMul(l, r)
                return {'+': V.PermAdd, '-': V.PermSub}[o](l, r)
            return {'+': V.Add, '-': V.Sub, '*': V.Mul}[o](l, r)
        raise ParseError('elab ' + str(k))


def parse_files(main_path, extra_text='', replace=None):
    seen = set()
    members = []

    def load(path, text):
        for m in Parser(text, os.path.basename(path)).program():
            if m[0] == 'import':
                p = os.path.join(os.path.dirname(path), m[1])
                if p not in seen:
                    seen.add(p)
                    with open(p) as f:
                        load(p, f.read())
            elif m[0] == 'import_std':
                pass
            else:
                members.append(m)
    with open(main_path) as f:
        text = f.read()
    text += '\n' + extra_text
    if replace:
        text = text.replace(*replace)
    load(main_path, text)
    return Elab(members).run()
