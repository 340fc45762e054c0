"""Python stand-ins for the Viper (silver) AST classes that Nagini instantiates
through JPype.  The sandbox has no viperserver.jar; these classes let the *real*
translator of /repo run unchanged and hand us the Viper program it generates.

Constructor argument order is that of silver (as used by nagini's lib/viper_ast.py).
Every field is readable both as python attribute `_x` and as scala accessor `x()`.
"""


class SeqMixin:
    pass


class ScalaSeq:
    """immutable scala Seq / List"""
    __slots__ = ('elems',)

    def __init__(self, elems=()):
        self.elems = list(elems)

    # scala api used by nagini
    def head(self): return self.elems[0]
    def last(self): return self.elems[-1]
    def tail(self): return ScalaSeq(self.elems[1:])
    def size(self): return len(self.elems)
    def length(self): return len(self.elems)
    def isEmpty(self): return not self.elems
    def nonEmpty(self): return bool(self.elems)
    def apply(self, i): return self.elems[i]
    def toList(self): return ScalaSeq(self.elems)
    def toSeq(self): return ScalaSeq(self.elems)
    def toSet(self): return ScalaSeq(self.elems)
    def contains(self, x): return x in self.elems
    def update(self, i, v): self.elems[i] = v
    def append(self, lst): self.elems.extend(lst.elems if isinstance(lst, ScalaSeq) else [lst])
    def add(self, e):
        if e not in self.elems:
            self.elems.append(e)
        return True
    def toIterator(self): return ScalaIter(self.elems)
    def iterator(self): return ScalaIter(self.elems)
    def mkString(self, sep=''): return sep.join(str(e) for e in self.elems)
    def __len__(self): return len(self.elems)
    def __iter__(self): return iter(self.elems)
    def __getitem__(self, i): return self.elems[i]
    def __eq__(self, o): return isinstance(o, ScalaSeq) and self.elems == o.elems
    def __hash__(self): return hash(len(self.elems))
    def __repr__(self): return 'Seq(%s)' % ', '.join(map(str, self.elems))


class ScalaIter:
    def __init__(self, elems):
        self.e = list(elems)
        self.i = 0

    def hasNext(self): return self.i < len(self.e)

    def next(self):
        self.i += 1
        return self.e[self.i - 1]


class ScalaMap:
    __slots__ = ('d',)

    def __init__(self, d=None): self.d = dict(d or {})
    def updated(self, k, v):
        n = dict(self.d)
        n[k] = v
        return ScalaMap(n)
    def put(self, k, v): self.d[k] = v
    def get(self, k): return Some(self.d[k]) if k in self.d else NONE
    def contains(self, k): return k in self.d
    def apply(self, k): return self.d[k]
    def toMap(self): return self
    def keys(self): return ScalaSeq(self.d.keys())
    def values(self): return ScalaSeq(self.d.values())
    def toSeq(self): return ScalaSeq(Tuple2(k, v) for k, v in self.d.items())
    def toIterator(self): return self.toSeq().toIterator()
    def size(self): return len(self.d)
    def isEmpty(self): return not self.d
    def __repr__(self): return 'Map(%s)' % self.d
    def __eq__(self, o): return isinstance(o, ScalaMap) and self.d == o.d
    def __hash__(self): return hash(len(self.d))


class Tuple2:
    def __init__(self, a, b): self.a, self.b = a, b
    def _1(self): return self.a
    def _2(self): return self.b


class Some:
    __slots__ = ('v',)

    def __init__(self, v): self.v = v
    def get(self): return self.v
    def isDefined(self): return True
    def isEmpty(self): return False
    def nonEmpty(self): return True
    def getOrElse(self, f): return self.v
    def __eq__(self, o): return isinstance(o, Some) and self.v == o.v
    def __hash__(self): return hash(('some', self.v))
    def __repr__(self): return 'Some(%s)' % (self.v,)


class _None:
    def isDefined(self): return False
    def isEmpty(self): return True
    def nonEmpty(self): return False
    def __repr__(self): return 'None'


NONE = _None()


class BigInteger:
    def __init__(self, s): self.v = int(s)
    def negate(self): return BigInteger(-self.v)


class BigInt:
    __slots__ = ('v',)

    def __init__(self, b): self.v = b.v if isinstance(b, (BigInteger, BigInt)) else int(b)
    def __eq__(self, o): return isinstance(o, BigInt) and self.v == o.v or self.v == o
    def __hash__(self): return hash(self.v)
    def __repr__(self): return str(self.v)
    def __int__(self): return self.v
    def toString(self): return str(self.v)


class Singleton:
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name
    def toString(self): return self.name
    def apply(self, *a): return self


class TypeObj(Singleton):
    def typ(self): return self
    def isConcrete(self): return True


# ------------------------------------------------------------------ node classes
REG = {}


def _acc(name):
    key = '_' + name

    def f(self): return getattr(self, key)
    f.__name__ = name
    return f


class Node:
    FIELDS = ()
    KIDS = ()

    def __init__(self, *args):
        fl = self.FIELDS
        if len(args) > len(fl):
            raise TypeError('%s: too many ctor args %d > %d' % (type(self).__name__, len(args), len(fl)))
        for n, v in zip(fl, args):
            setattr(self, '_' + n, v)
        for n in fl[len(args):]:
            setattr(self, '_' + n, DEFAULTS.get(n))

    def subnodes(self):
        out = []
        for n in self.FIELDS:
            v = getattr(self, '_' + n)
            _collect(v, out)
        return ScalaSeq(out)

    def isPure(self):
        """silver's Expressions.isPure"""
        st = [self]
        while st:
            x = st.pop()
            if isinstance(x, (AccessPredicate_, QuantPerm_)):
                return False
            t = type(x).__name__
            if t in ('Unfolding', 'Asserting', 'Let'):
                st.append(x._body)
            elif t not in ('FuncApp', 'DomainFuncApp', 'BackendFuncApp'):
                st.extend(x.subnodes().elems)
        return True

    def replace(self, a, b=None):
        """structural replacement of node a by b everywhere (silver's Node.replace)"""
        if b is None:
            return _transform(self, lambda n: a.d[n] if isinstance(n, Node) and n in a.d else None)
        return _transform(self, lambda n: b if n == a else None)

    def whenExhaling(self):
        return _transform(self, lambda n: n._ex if type(n).__name__ == 'InhaleExhaleExp' else None)

    def whenInhaling(self):
        return _transform(self, lambda n: getattr(n, '_in') if type(n).__name__ == 'InhaleExhaleExp' else None)

    def toString(self): return pp(self)
    def __str__(self): return pp(self)
    def __repr__(self): return pp(self)
    def checkTransitively(self): return ScalaSeq()

    def __eq__(self, o):
        if self is o:
            return True
        if type(self) is not type(o):
            return False
        return all(getattr(self, '_' + f) == getattr(o, '_' + f)
                   for f in self.FIELDS if f not in ('pos', 'info', 'errT'))

    def __hash__(self): return hash(type(self).__name__)


def _collect(v, out):
    if isinstance(v, Node) and not isinstance(v, (Info_, Position_, Type_)):
        out.append(v)
    elif isinstance(v, ScalaSeq):
        for x in v.elems:
            _collect(x, out)
    elif isinstance(v, Some):
        _collect(v.v, out)


def _transform(v, f):
    if isinstance(v, ScalaSeq):
        return ScalaSeq([_transform(x, f) for x in v.elems])
    if isinstance(v, Some):
        return Some(_transform(v.v, f))
    if isinstance(v, Node) and not isinstance(v, (Info_, Position_, Type_)):
        r = f(v)
        if r is not None:
            return _transform(r, f) if type(v).__name__ == 'InhaleExhaleExp' else r
        c = type(v).__new__(type(v))
        c.__dict__.update(v.__dict__)
        for n in v.FIELDS:
            if n not in ('pos', 'info', 'errT'):
                setattr(c, '_' + n, _transform(getattr(v, '_' + n), f))
        return c
    return v


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(reversed(x.subnodes().elems))


class Info_(Node): pass
class Position_(Node): pass
class Type_(Node): pass
class Exp(Node): pass
class Stmt(Node): pass
class Member(Node): pass
class LocationAccess(Exp): pass
class ResourceAccess(Exp): pass
class AccessPredicate_(Exp): pass
class QuantPerm_(Exp): pass
class AbstractLocalVar(Exp): pass
class BinExp(Exp): pass
class UnExp(Exp): pass
class Literal(Exp): pass
class ExtensionExp(Exp): pass
class ExtensionStmt(Stmt): pass
class ExtensionMember(Member): pass

for c in (Exp, Stmt, Member, LocationAccess, ResourceAccess, AbstractLocalVar, BinExp, UnExp,
          Literal, ExtensionExp, ExtensionStmt, ExtensionMember, Node):
    REG[c.__name__] = c
REG['AccessPredicate'] = AccessPredicate_
REG['Infoed'] = Node
REG['Positioned'] = Node
REG['Declaration'] = Node


def node(name, fields, base=Exp, pie=True):
    fl = tuple(fields.split())
    if pie:
        fl = fl + ('pos', 'info', 'errT')
    d = {'FIELDS': fl}
    for f in fl:
        d[f] = _acc(f)
    if isinstance(base, tuple):
        c = type(name, base, d)
    else:
        c = type(name, (base,), d)
    REG[name] = c
    return c


Int = TypeObj('Int')
Bool = TypeObj('Bool')
Ref = TypeObj('Ref')
Perm = TypeObj('Perm')
NoPosition = Singleton('NoPosition')
NoInfo = Singleton('NoInfo')
NoTrafos = Singleton('NoTrafos')
NoPosition.line = lambda: -1
NoPosition.column = lambda: -1
DEFAULTS = {'pos': NoPosition, 'info': NoInfo, 'errT': NoTrafos}

node('Program', 'domains fields functions predicates methods extensions', Member)
node('Function', 'name formalArgs typ pres posts body', Member)
node('Method', 'name formalArgs formalReturns pres posts body', Member)
node('Field', 'name typ', Member)
node('Predicate', 'name formalArgs body', Member)
node('Domain', 'name functions axioms typVars interpretations', Member)
node('DomainFunc', 'name formalArgs typ unique interpretation pos info domainName errT', Member, pie=False)
node('NamedDomainAxiom', 'name exp pos info domainName errT', Member, pie=False)
node('AnonymousDomainAxiom', 'exp pos info domainName errT', Member, pie=False)
node('DomainFuncApp', 'funcname args typVarMap pos info typ domainName errT', Exp, pie=False)
node('BackendFuncApp', 'funcname args pos info typ interpretation errT', Exp, pie=False)
node('FuncApp', 'funcname args pos info typ errT', Exp, pie=False)
node('LocalVarDecl', 'name typ', Node)
REG['AnyLocalVarDecl'] = REG['LocalVarDecl']
node('LocalVar', 'name typ', AbstractLocalVar)
node('Result', 'typ', AbstractLocalVar)
REG['Result'].name = lambda self: 'result'
# statements
node('Seqn', 'ss scopedSeqnDeclarations', Stmt)
node('LocalVarAssign', 'lhs rhs', Stmt)
node('FieldAssign', 'lhs rhs', Stmt)
node('MethodCall', 'methodName args targets', Stmt)
node('NewStmt', 'lhs fields', Stmt)
node('Label', 'name invs', Stmt)
node('Goto', 'target', Stmt)
node('Inhale', 'exp', Stmt)
node('Exhale', 'exp', Stmt)
node('Assert', 'exp', Stmt)
node('Assume', 'exp', Stmt)
node('Refute', 'exp', ExtensionStmt)
node('Fold', 'acc', Stmt)
node('Unfold', 'acc', Stmt)
node('If', 'cond thn els', Stmt)
node('While', 'cond invs body', Stmt)
node('LocalVarDeclStmt', 'decl', Stmt)
# expressions
node('PredicateAccess', 'args predicateName', LocationAccess)
node('PredicateAccessPredicate', 'loc permExp', AccessPredicate_)
node('FieldAccess', 'rcv field', LocationAccess)
node('FieldAccessPredicate', 'loc permExp', AccessPredicate_)
node('Unfolding', 'acc body')
node('Asserting', 'a body')
node('Old', 'exp')
node('LabelledOld', 'exp oldLabel')
node('InhaleExhaleExp', 'in ex')
node('CondExp', 'cond thn els')
node('Let', 'variable exp body')
node('Forall', 'variables triggers exp')
node('Exists', 'variables triggers exp')
node('ForPerm', 'variables resource body')
node('Trigger', 'exps', Node)
node('CurrentPerm', 'res')
for n in 'FullPerm NoPerm WildcardPerm EpsilonPerm TrueLit FalseLit NullLit'.split():
    node(n, '', Literal)
node('IntLit', 'i', Literal)
for n in ('Add Sub Mul Div Mod And Or Implies EqCmp NeCmp LtCmp LeCmp GtCmp GeCmp FractionalPerm PermAdd '
          'PermSub PermMul IntPermMul PermDiv PermPermDiv PermLtCmp PermLeCmp PermGtCmp PermGeCmp SeqAppend AnySetUnion '
          'AnySetIntersection AnySetMinus AnySetSubset').split():
    node(n, 'left right', BinExp)
for n in 'Not Minus PermMinus'.split():
    node(n, 'exp', UnExp)
REG['SeqContains'] = node('SeqContains', 'elem s')
node('AnySetContains', 'elem s')
node('AnySetCardinality', 's')
node('SeqLength', 's')
node('SeqIndex', 's idx')
node('SeqTake', 's n')
node('SeqDrop', 's n')
node('SeqUpdate', 's idx elem')
node('RangeSeq', 'low high')
node('ExplicitSeq', 'elems')
node('ExplicitSet', 'elems')
node('ExplicitMultiset', 'elems')
node('ExplicitMap', 'elems')
node('Maplet', 'key value')
node('EmptySeq', 'elemType')
node('EmptySet', 'elemType')
node('EmptyMultiset', 'elemType')
node('EmptyMap', 'keyType valueType')
node('MapContains', 'key base')
node('MapLookup', 'base key')
node('MapUpdate', 'base key value')
node('MapDomain', 'base')
node('MapRange', 'base')
node('MapCardinality', 'base')
node('DecreasesTuple', 'tupleExpressions condition', ExtensionExp)
node('DecreasesWildcard', 'condition', ExtensionExp)
node('DecreasesStar', '', ExtensionExp)
node('PredicateInstance', 'p args', ExtensionExp)
# types
node('SeqType', 'elementType', Type_, pie=False)
node('SetType', 'elementType', Type_, pie=False)
node('MultisetType', 'elementType', Type_, pie=False)
node('MapType', 'keyType valueType', Type_, pie=False)
node('DomainType', 'domainName partialTypVarsMap typeParameters', Type_, pie=False)
node('TypeVar', 'name', Type_, pie=False)
# infos
node('SimpleInfo', 'comment', Info_, pie=False)
node('ConsInfo', 'head tail', Info_, pie=False)
node('AnnotationInfo', 'values', Info_, pie=False)
# positions
node('LineColumnPosition', 'line column', Position_, pie=False)
node('IdentifierPosition', 'file start end id', Position_, pie=False)
REG['HasLineColumn'] = REG['IdentifierPosition']
REG['HasIdentifier'] = REG['IdentifierPosition']
REG['IdentifierPosition'].line = lambda self: self._start._line
REG['IdentifierPosition'].column = lambda self: self._start._column
# sif extension
SIF = {}


def sif(name, fields, base, pie=True):
    SIF[name] = node(name, fields, base, pie)
    del REG[name]


sif('SIFReturnStmt', 'exp resVar', ExtensionStmt)
sif('SIFBreakStmt', '', ExtensionStmt)
sif('SIFContinueStmt', '', ExtensionStmt)
sif('SIFRaiseStmt', 'assignment', ExtensionStmt)
sif('SIFExceptionHandler', 'errVar exception handler', ExtensionStmt)
sif('SIFWhileElse', 'whileLoop els', ExtensionStmt)
sif('SIFTryCatchStmt', 'body catchBlocks elseBlock finallyBlock', ExtensionStmt)
sif('SIFLowExp', 'exp comparator typVarMap', ExtensionExp)
sif('SIFLowEventExp', '', ExtensionExp)
sif('SIFLowExitExp', '', ExtensionExp)
sif('SIFDeclassifyStmt', 'exp', ExtensionStmt)
sif('SIFInlinedCallStmt', 'stmts', ExtensionStmt)
sif('SIFAssertNoException', '', ExtensionStmt)
sif('SIFTerminatesExp', 'cond', ExtensionExp)
sif('SIFInfo', 'comment continueUnaware obligationVar', Info_, pie=False)
sif('SIFDynCheckInfo', 'comment dynCheck onlyDynVersion', Info_, pie=False)

globals().update({k: v for k, v in REG.items() if k not in globals()})
globals().update(SIF)


# ---------------------------------------------------------------- typing
def _bool_t(self): return Bool
def _int_t(self): return Int
def _perm_t(self): return Perm


for _n in ('And Or Implies EqCmp NeCmp LtCmp LeCmp GtCmp GeCmp Not PermLtCmp PermLeCmp PermGtCmp PermGeCmp '
           'TrueLit FalseLit SeqContains AnySetContains AnySetSubset MapContains Forall Exists ForPerm '
           'FieldAccessPredicate PredicateAccessPredicate InhaleExhaleExp').split():
    REG[_n].typ = _bool_t
for _n in SIF:
    if SIF[_n].__mro__[1] is ExtensionExp:
        SIF[_n].typ = _bool_t
for _n in 'Add Sub Mul Div Mod Minus IntLit SeqLength AnySetCardinality MapCardinality'.split():
    REG[_n].typ = _int_t
for _n in ('FullPerm NoPerm WildcardPerm EpsilonPerm FractionalPerm PermAdd PermSub PermMul IntPermMul PermDiv PermPermDiv '
           'PermMinus CurrentPerm').split():
    REG[_n].typ = _perm_t
REG['NullLit'].typ = lambda self: Ref
REG['CondExp'].typ = lambda self: self._thn.typ()
for _n in 'Old LabelledOld'.split():
    REG[_n].typ = lambda self: self._exp.typ()
for _n in 'Unfolding Asserting Let'.split():
    REG[_n].typ = lambda self: self._body.typ()
REG['FieldAccess'].typ = lambda self: self._field._typ
for _n in 'SeqAppend AnySetUnion AnySetIntersection AnySetMinus'.split():
    REG[_n].typ = lambda self: self._left.typ()
for _n in 'SeqTake SeqDrop SeqUpdate'.split():
    REG[_n].typ = lambda self: self._s.typ()
REG['SeqIndex'].typ = lambda self: self._s.typ()._elementType
REG['RangeSeq'].typ = lambda self: REG['SeqType'](Int)
REG['ExplicitSeq'].typ = lambda self: REG['SeqType'](self._elems[0].typ())
REG['ExplicitSet'].typ = lambda self: REG['SetType'](self._elems[0].typ())
REG['ExplicitMultiset'].typ = lambda self: REG['MultisetType'](self._elems[0].typ())
REG['EmptySeq'].typ = lambda self: REG['SeqType'](self._elemType)
REG['EmptySet'].typ = lambda self: REG['SetType'](self._elemType)
REG['EmptyMultiset'].typ = lambda self: REG['MultisetType'](self._elemType)
REG['EmptyMap'].typ = lambda self: REG['MapType'](self._keyType, self._valueType)
REG['ExplicitMap'].typ = lambda self: REG['MapType'](self._elems[0]._key.typ(), self._elems[0]._value.typ())
REG['MapLookup'].typ = lambda self: self._base.typ()._valueType
REG['MapUpdate'].typ = lambda self: self._base.typ()
REG['MapDomain'].typ = lambda self: REG['SetType'](self._base.typ()._keyType)
REG['MapRange'].typ = lambda self: REG['SetType'](self._base.typ()._valueType)
REG['LocalVarDecl'].localVar = lambda self: REG['LocalVar'](self._name, self._typ, self._pos, self._info, self._errT)
for _n in ('AnySetUnion',):
    pass
REG['FuncApp'].func = lambda self, *a: None
REG['Program'].findFunction = lambda self, n: next(f for f in self._functions if f._name == n)
REG['Program'].findMethod = lambda self, n: next(f for f in self._methods if f._name == n)
REG['DomainType'].isConcrete = lambda self: True

# ---------------------------------------------------------------- printing
OPS = {'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '\\', 'Mod': '%', 'And': '&&', 'Or': '||', 'Implies': '==>',
       'EqCmp': '==', 'NeCmp': '!=', 'LtCmp': '<', 'LeCmp': '<=', 'GtCmp': '>', 'GeCmp': '>=', 'FractionalPerm': '/',
       'PermAdd': '+', 'PermSub': '-', 'PermMul': '*', 'IntPermMul': '*', 'PermDiv': '/', 'PermPermDiv': '/',
       'PermLtCmp': '<', 'PermLeCmp': '<=', 'PermGtCmp': '>', 'PermGeCmp': '>=', 'SeqAppend': '++',
       'AnySetUnion': 'union', 'AnySetIntersection': 'intersection', 'AnySetMinus': 'setminus', 'AnySetSubset': 'subset'}


def ty(t):
    if isinstance(t, Singleton):
        return t.name
    n = type(t).__name__
    if n == 'SeqType': return 'Seq[%s]' % ty(t._elementType)
    if n == 'SetType': return 'Set[%s]' % ty(t._elementType)
    if n == 'MultisetType': return 'Multiset[%s]' % ty(t._elementType)
    if n == 'MapType': return 'Map[%s,%s]' % (ty(t._keyType), ty(t._valueType))
    if n == 'DomainType': return t._domainName if isinstance(t._domainName, str) else str(t._domainName)
    if n == 'TypeVar': return t._name
    return repr(t)


def pp(e):
    n = type(e).__name__
    if not isinstance(e, Node):
        return str(e)
    if n in OPS: return '(%s %s %s)' % (pp(e._left), OPS[n], pp(e._right))
    if n in ('LocalVar',): return e._name
    if n == 'Result': return 'result'
    if n == 'IntLit': return str(e._i)
    if n in ('TrueLit', 'FalseLit'): return n[:-3].lower()
    if n == 'NullLit': return 'null'
    if n == 'FullPerm': return 'write'
    if n == 'NoPerm': return 'none'
    if n == 'WildcardPerm': return 'wildcard'
    if n == 'Not': return '!(%s)' % pp(e._exp)
    if n in ('Minus', 'PermMinus'): return '-(%s)' % pp(e._exp)
    if n in ('FuncApp', 'DomainFuncApp', 'BackendFuncApp'):
        return '%s(%s)' % (e._funcname, ', '.join(pp(a) for a in e._args))
    if n == 'FieldAccess': return '%s.%s' % (pp(e._rcv), e._field._name)
    if n in ('FieldAccessPredicate', 'PredicateAccessPredicate'):
        p = e._permExp
        p = p.v if isinstance(p, Some) else p
        return 'acc(%s, %s)' % (pp(e._loc), 'write' if p in (None, NONE) else pp(p))
    if n == 'PredicateAccess': return '%s(%s)' % (e._predicateName, ', '.join(pp(a) for a in e._args))
    if n == 'CondExp': return '(%s ? %s : %s)' % (pp(e._cond), pp(e._thn), pp(e._els))
    if n == 'Old': return 'old(%s)' % pp(e._exp)
    if n == 'LabelledOld': return 'old[%s](%s)' % (e._oldLabel, pp(e._exp))
    if n in ('Forall', 'Exists'):
        return '(%s %s :: %s %s)' % (n.lower(), ', '.join('%s: %s' % (v._name, ty(v._typ)) for v in e._variables),
                                     ' '.join(pp(t) for t in e._triggers), pp(e._exp))
    if n == 'Trigger': return '{%s}' % ', '.join(map(pp, e._exps))
    if n == 'ForPerm':
        return '(forperm %s [%s] :: %s)' % (', '.join('%s: %s' % (v._name, ty(v._typ)) for v in e._variables),
                                            pp(e._resource), pp(e._body))
    if n == 'Let': return '(let %s == (%s) in %s)' % (e._variable._name, pp(e._exp), pp(e._body))
    if n == 'Unfolding': return '(unfolding %s in %s)' % (pp(e._acc), pp(e._body))
    if n == 'Asserting': return '(asserting (%s) in %s)' % (pp(e._a), pp(e._body))
    if n == 'InhaleExhaleExp': return '[%s, %s]' % (pp(getattr(e, '_in')), pp(e._ex))
    if n == 'CurrentPerm': return 'perm(%s)' % pp(e._res)
    if n == 'SeqContains' or n == 'AnySetContains': return '(%s in %s)' % (pp(e._elem), pp(e._s))
    if n in ('SeqLength', 'AnySetCardinality'): return '|%s|' % pp(e._s)
    if n == 'SeqIndex': return '%s[%s]' % (pp(e._s), pp(e._idx))
    if n == 'SeqTake': return '%s[..%s]' % (pp(e._s), pp(e._n))
    if n == 'SeqDrop': return '%s[%s..]' % (pp(e._s), pp(e._n))
    if n == 'SeqUpdate': return '%s[%s := %s]' % (pp(e._s), pp(e._idx), pp(e._elem))
    if n == 'RangeSeq': return '[%s..%s)' % (pp(e._low), pp(e._high))
    if n in ('ExplicitSeq', 'ExplicitSet', 'ExplicitMultiset', 'ExplicitMap'):
        return '%s(%s)' % (n[8:], ', '.join(map(pp, e._elems)))
    if n == 'Maplet': return '%s := %s' % (pp(e._key), pp(e._value))
    if n in ('EmptySeq', 'EmptySet', 'EmptyMultiset', 'EmptyMap'): return n[5:] + '()'
    if n == 'MapContains': return '(%s in %s)' % (pp(e._key), pp(e._base))
    if n == 'MapLookup': return '%s[%s]' % (pp(e._base), pp(e._key))
    if n == 'MapUpdate': return '%s[%s := %s]' % (pp(e._base), pp(e._key), pp(e._value))
    if n == 'MapDomain': return 'domain(%s)' % pp(e._base)
    if n == 'MapRange': return 'range(%s)' % pp(e._base)
    if n == 'MapCardinality': return '|%s|' % pp(e._base)
    if n == 'DecreasesTuple':
        return 'decreases ' + ', '.join(map(pp, e._tupleExpressions)) + (
            ' if ' + pp(e._condition.v) if isinstance(e._condition, Some) else '')
    if n == 'DecreasesWildcard':
        return 'decreases _' + (' if ' + pp(e._condition.v) if isinstance(e._condition, Some) else '')
    if n == 'DecreasesStar': return 'decreases *'
    if n == 'PredicateInstance': return 'PI:%s(%s)' % (e._p, ', '.join(map(pp, e._args)))
    if n == 'LocalVarDecl': return '%s: %s' % (e._name, ty(e._typ))
    if isinstance(e, Stmt):
        return ppst(e, 0)
    if isinstance(e, Member):
        return ppm(e)
    if isinstance(e, Type_):
        return ty(e)
    if n in SIF:
        return '%s(%s)' % (n, ', '.join(
            str(getattr(e, '_' + f)) for f in e.FIELDS if f not in ('pos', 'info', 'errT')))
    return '<%s>' % n


def ppst(s, ind):
    p = '  ' * ind
    n = type(s).__name__
    if n == 'Seqn':
        out = []
        for d in s._scopedSeqnDeclarations:
            if isinstance(d, REG['LocalVarDecl']):
                out.append('%svar %s: %s' % (p, d._name, ty(d._typ)))
        for x in s._ss:
            r = ppst(x, ind)
            if r:
                out.append(r)
        return '\n'.join(out)
    if n in ('LocalVarAssign', 'FieldAssign'): return '%s%s := %s' % (p, pp(s._lhs), pp(s._rhs))
    if n == 'MethodCall':
        t = ', '.join(map(pp, s._targets))
        return '%s%s%s(%s)' % (p, t + ' := ' if t else '', s._methodName, ', '.join(map(pp, s._args)))
    if n == 'NewStmt': return '%s%s := new(%s)' % (p, pp(s._lhs), ', '.join(f._name for f in s._fields))
    if n == 'Label': return '%slabel %s%s' % (p, s._name, ''.join(' invariant ' + pp(i) for i in s._invs))
    if n == 'Goto': return '%sgoto %s' % (p, s._target)
    if n in ('Inhale', 'Exhale', 'Assert', 'Assume', 'Refute'): return '%s%s %s' % (p, n.lower(), pp(s._exp))
    if n in ('Fold', 'Unfold'): return '%s%s %s' % (p, n.lower(), pp(s._acc))
    if n == 'If':
        r = '%sif (%s) {\n%s\n%s}' % (p, pp(s._cond), ppst(s._thn, ind + 1), p)
        e = ppst(s._els, ind + 1)
        if e.strip():
            r += ' else {\n%s\n%s}' % (e, p)
        return r
    if n == 'While':
        return '%swhile (%s)\n%s\n%s{\n%s\n%s}' % (p, pp(s._cond), '\n'.join(
            p + '  invariant ' + pp(i) for i in s._invs), p, ppst(s._body, ind + 1), p)
    if n == 'LocalVarDeclStmt': return '%svar %s: %s' % (p, s._decl._name, ty(s._decl._typ))
    if n == 'SIFWhileElse': return ppst(s._whileLoop, ind) + ' else {\n' + ppst(s._els, ind + 1) + '\n' + p + '}'
    if n == 'SIFTryCatchStmt':
        r = '%stry {\n%s\n%s}' % (p, ppst(s._body, ind + 1), p)
        for c in s._catchBlocks:
            r += ' catch(%s, %s) {\n%s\n%s}' % (c._errVar, c._exception, ppst(c._handler, ind + 1), p)
        for nm, o in (('else', s._elseBlock), ('finally', s._finallyBlock)):
            if isinstance(o, Some):
                r += ' %s {\n%s\n%s}' % (nm, ppst(o.v, ind + 1), p)
        return r
    if n == 'SIFInlinedCallStmt': return p + 'inlined {\n' + ppst(s._stmts, ind + 1) + '\n' + p + '}'
    return '%s%s(%s)' % (p, n, ', '.join(str(getattr(s, '_' + f)) for f in s.FIELDS if f not in ('pos', 'info', 'errT')))


def ppm(m):
    n = type(m).__name__
    if n == 'Program':
        return '\n\n'.join(ppm(x) for f in ('domains', 'fields', 'functions', 'predicates', 'methods')
                           for x in getattr(m, '_' + f))
    if n == 'Field': return 'field %s: %s' % (m._name, ty(m._typ))
    args = lambda l: ', '.join('%s: %s' % (getattr(a, '_name', '_'), ty(a._typ)) for a in l)
    if n == 'Function':
        r = 'function %s(%s): %s' % (m._name, args(m._formalArgs), ty(m._typ))
        r += ''.join('\n  requires ' + pp(x) for x in m._pres) + ''.join('\n  ensures ' + pp(x) for x in m._posts)
        if isinstance(m._body, Some): r += '\n{ %s }' % pp(m._body.v)
        return r
    if n == 'Predicate':
        return 'predicate %s(%s)' % (m._name, args(m._formalArgs)) + (
            ' { %s }' % pp(m._body.v) if isinstance(m._body, Some) else '')
    if n == 'Method':
        r = 'method %s(%s)\n  returns (%s)' % (m._name, args(m._formalArgs), args(m._formalReturns))
        r += ''.join('\n  requires ' + pp(x) for x in m._pres) + ''.join('\n  ensures ' + pp(x) for x in m._posts)
        if isinstance(m._body, Some): r += '\n{\n%s\n}' % ppst(m._body.v, 1)
        return r
    if n == 'Domain':
        return 'domain %s {\n%s\n%s\n}' % (m._name, '\n'.join('  ' + ppm(f) for f in m._functions),
                                           '\n'.join('  ' + ppm(a) for a in m._axioms))
    if n == 'DomainFunc':
        return '%sfunction %s(%s): %s' % ('unique ' if m._unique else '', m._name, args(m._formalArgs), ty(m._typ))
    if n in ('NamedDomainAxiom', 'AnonymousDomainAxiom'):
        return 'axiom %s { %s }' % (getattr(m, '_name', ''), pp(m._exp))
    return '<%s>' % n
