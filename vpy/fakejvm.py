"""A stand-in JVM: enough of the java/scala/viper packages for /repo's translator to run unchanged.

install() must be called before any nagini_translation module that imports lib.jvmaccess names.
REPO can be pointed at another tree with NAGINI_REPO (used only for developing the checks; the
registered commands never set it).
"""
import os
import sys
import types

from . import vast as V, silparse

REPO = os.environ.get('NAGINI_REPO', '/repo')
VENV_SITE = '/opt/venv/lib/python3.12/site-packages'


class Pkg:
    """a package / object with attributes; unknown attributes are sub-packages (like jpype.JPackage)"""

    def __init__(self, name, **kw):
        self.__dict__['_n'] = name
        self.__dict__.update(kw)

    def __getattr__(self, a):
        if a.startswith('__') and a.endswith('__'):
            raise AttributeError(a)
        p = Pkg(self._n + '.' + a)
        self.__dict__[a] = p
        return p

    def __str__(self): return self._n


class ArraySeqF:
    def __call__(self, n): return V.ScalaSeq([None] * n)
    def make(self, arr): return V.ScalaSeq(list(arr))


class Obj:
    def __init__(self, **kw): self.__dict__.update(kw)


def desugar_qp(fa):
    """QuantifiedPermissions.desugarSourceQuantifiedPermissionSyntax: split conjunctions / nested implications"""
    def go(vs, trs, conds, body):
        if isinstance(body, V.And):
            return go(vs, trs, conds, body._left) + go(vs, trs, conds, body._right)
        if isinstance(body, V.Implies) and not body.isPure():
            if isinstance(body._right, (V.And, V.Implies, V.Forall)) and not body._right.isPure():
                return go(vs, trs, conds + [body._left], body._right)
        if isinstance(body, V.CondExp) and not body.isPure():
            return (go(vs, trs, conds + [body._cond], body._thn) +
                    go(vs, trs, conds + [V.Not(body._cond, fa._pos, fa._info)], body._els))
        if isinstance(body, V.Forall) and not body.isPure():
            return go(vs + list(body._variables), trs + list(body._triggers), conds, body._exp)
        if isinstance(body, V.Implies) and not body.isPure():
            conds = conds + [body._left]
            body = body._right
        c = None
        for x in conds:
            c = x if c is None else V.And(c, x, fa._pos, fa._info)
        e = body if c is None else V.Implies(c, body, fa._pos, fa._info)
        return [V.Forall(V.ScalaSeq(vs), V.ScalaSeq(trs), e, fa._pos, fa._info)]
    return V.ScalaSeq(go(list(fa._variables), list(fa._triggers), [], fa._exp))


def names_in(n):
    out = set()
    for x in V.walk(n):
        t = type(x).__name__
        if t in ('FuncApp', 'DomainFuncApp', 'BackendFuncApp'):
            out.add(('f', x._funcname))
            if t == 'DomainFuncApp':
                out.add(('d', x._domainName))
        elif t == 'PredicateAccess':
            out.add(('p', x._predicateName))
        elif t == 'PredicateInstance':
            out.add(('p', x._p))
        elif t == 'MethodCall':
            out.add(('m', x._methodName))
        elif t == 'FieldAccess':
            out.add(('fl', x._field._name))
        elif t == 'NewStmt':
            for f in x._fields:
                out.add(('fl', f._name))
    return out


def chop(prog, selected):
    """dependency closure (what silver's chopper computes); methods not selected lose their body"""
    sel = None
    if selected is not None:
        sel = set(selected)
    members = {}
    for f in prog._functions: members[('f', f._name)] = f
    for f in prog._predicates: members[('p', f._name)] = f
    for f in prog._methods: members[('m', f._name)] = f
    for f in prog._fields: members[('fl', f._name)] = f
    if sel is None:
        return prog
    todo = [k for k, m in members.items() if sel(m)] if callable(selected) else \
           [k for k in members if k[1] in sel and k[0] in 'fpm']
    full = set(todo)
    seen = set()
    while todo:
        k = todo.pop()
        if k in seen or k not in members:
            continue
        seen.add(k)
        m = members[k]
        if k[0] == 'm' and k not in full:
            srcs = list(m._pres) + list(m._posts)
            deps = set()
            for s in srcs:
                deps |= names_in(s)
        else:
            deps = names_in(m)
        todo.extend(deps)
    keep = lambda kk, l: V.ScalaSeq([m for m in l if (kk, m._name) in seen])
    ms = []
    for m in prog._methods:
        if ('m', m._name) in seen:
            if ('m', m._name) not in full:
                m = V.Method(m._name, m._formalArgs, m._formalReturns, m._pres, m._posts, V.NONE, m._pos, m._info)
            ms.append(m)
    return V.Program(prog._domains, keep('fl', prog._fields), keep('f', prog._functions), keep('p', prog._predicates),
                     V.ScalaSeq(ms), prog._extensions, prog._pos, prog._info)


class Chopper:
    def __init__(self): self.last = None

    def chop(self, prog, sel=None, *a):
        self.last = sel
        names = None
        if sel is not None and not isinstance(sel, V._None):
            s = sel.get() if isinstance(sel, V.Some) else sel
            names = [str(x) for x in s]
        if names is not None and not names:
            return V.NONE
        return V.Some(chop(prog, names))


class FastParser:
    def parse(self, text, path, *rest):
        return Parsed(text, str(path))


class Parsed:
    def __init__(self, text, path): self.text, self.path = text, path
    def initProperties(self): pass


class Resolver:
    def __init__(self, p): self.p = p
    def run(self, *a): return V.Some(self.p)


class TranslatorObj:
    def apply(self, p): return TranslatorInst(p)


class TranslatorInst:
    def __init__(self, p): self.p = p

    def translate(self):
        mem = []
        seen = set()

        def load(path, text):
            for m in silparse.Parser(text, os.path.basename(path)).program():
                if m[0] == 'import':
                    q = os.path.join(os.path.dirname(path), m[1])
                    if q not in seen:
                        seen.add(q)
                        load(q, open(q).read())
                elif m[0] != 'import_std':
                    mem.append(m)
        load(self.p.path, self.p.text)
        return V.Some(silparse.Elab(mem).run())


class Path:
    def __init__(self, s): self.s = s
    def toString(self): return self.s
    def __str__(self): return self.s


class SIFTransformer:
    def __init__(self):
        self.domainFuncs = []
        self.equalityCompFunctions = None

    def addDomainFuncToDuplicate(self, *a): self.domainFuncs.append(a)
    def setAllLowMethods(self, s): self.allLow = s
    def setPreservesLowMethods(self, s): self.presLow = s
    def transform(self, prog, *a): return prog

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a: None


class FakeJVM:
    def __init__(self, classpath=None):
        java = Pkg('java')
        scala = Pkg('scala')
        viper = Pkg('viper')
        self.java, self.scala, self.viper, self.fastparse = java, scala, viper, Pkg('fastparse')
        java.lang.__dict__['Object'] = object
        java.math.__dict__['BigInteger'] = V.BigInteger
        java.nio.file.__dict__['Paths'] = Obj(get=lambda f, r=None: Path(f))
        scala.__dict__['Some'] = V.Some
        scala.math.__dict__['BigInt'] = V.BigInt
        scala.collection.mutable.__dict__['ArraySeq'] = ArraySeqF()
        scala.collection.mutable.__dict__['ListBuffer'] = V.ScalaSeq
        scala.collection.mutable.__dict__['HashSet'] = V.ScalaSeq
        scala.collection.immutable.__dict__['HashMap'] = V.ScalaMap
        scala.collection.mutable.__dict__['HashMap'] = V.ScalaMap
        scala.__dict__['Tuple2'] = V.Tuple2
        ast = viper.silver.ast
        for k, c in V.REG.items():
            ast.__dict__[k] = c
        for k, c in V.SIF.items():
            viper.silver.sif.__dict__[k] = c
        viper.silver.plugin.standard.refute.__dict__['Refute'] = V.REG['Refute']
        t = viper.silver.plugin.standard.termination
        t.__dict__['DecreasesTuple'] = V.REG['DecreasesTuple']
        t.__dict__['DecreasesWildcard'] = V.REG['DecreasesWildcard']
        t.__dict__['TerminationPlugin'] = lambda *a: Obj(beforeParse=lambda *b: None)
        viper.silver.plugin.standard.predicateinstance.__dict__['PredicateInstance'] = V.REG['PredicateInstance']
        viper.silver.parser.__dict__['Resolver'] = Resolver
        self.transformer = SIFTransformer()
        self.chopper = Chopper()
        viper.silver.sif.__dict__['SIFExtendedTransformer'] = self.transformer
        ast.utility.__dict__['Consistency'] = Obj(resetMessages=lambda: None)
        ver = viper.silver.verifier
        for n in ('Failure', 'Success', 'AbstractError', 'VerificationError'):
            ver.__dict__[n] = type(n, (), {})
        self.objects = {
            ('viper.silver.ast', n): V.Singleton(n) for n in
            'AddOp AndOp DivOp FracOp GeOp GtOp ImpliesOp IntPermMulOp LeOp LtOp ModOp MulOp NegOp NotOp OrOp PermAddOp '
            'PermDivOp SubOp'.split()}
        self.objects.update({('viper.silver.ast', n): getattr(V, n) for n in
                             ('NoPosition', 'NoInfo', 'NoTrafos', 'Int', 'Bool', 'Ref', 'Perm')})
        self.objects.update({
            ('scala', 'None'): V.NONE,
            ('viper.silver.ast', 'Function'): Obj(apply=lambda *a: V.REG['Function'](*a)),
            ('viper.silver.ast.utility', 'QuantifiedPermissions'): Obj(desugarSourceQuantifiedPermissionSyntax=desugar_qp),
            ('viper.silver.ast.utility.chopper', 'PluginAwareChopper'): self.chopper,
            ('viper.silver.ast.utility', 'DiskLoader'): None,
            ('viper.silver.parser', 'Translator'): TranslatorObj(),
            ('viper.silver.sif', 'SIFExtendedTransformer'): self.transformer,
        })

    def get_proxy(self, supertype, instance): return instance
    def get_array(self, t, n): return [None] * n

    def is_known_class(self, pkg, name):
        return name in pkg.__dict__


_cur = None


def get_jvm():
    global _cur
    if _cur is None:
        _cur = FakeJVM()
    return _cur


def getobject(java, package, name):
    return get_jvm().objects[(str(package), name)]


def getclass(java, package, name):
    if name == 'FastParser':
        return FastParser
    return getattr(package, name)


def install():
    """Make /repo's nagini importable with the fake JVM (works under /opt/venv and python3-vt)."""
    src = os.path.join(REPO, 'src')
    # drop any other path providing nagini (editable finder of /opt/venv points to /repo/src as well)
    # twice: mypy's pyinfo ignores sys.path[0] (the script directory)
    # the repository's own dependencies (mypy 1.5, ...) win over those of the tool venv, except z3 whose copy in
    # /opt/venv does not import
    import z3  # noqa
    sys.path[:0] = [src, src, VENV_SITE]
    sys.dont_write_bytecode = True
    # keep mypy's subprocess / stub lookup on the venv
    os.environ['PATH'] = '/opt/venv/bin:' + os.environ.get('PATH', '')
    os.environ.setdefault('JAVA_HOME', '/usr/lib/jvm/java-17-openjdk-amd64')
    import nagini_translation
    got = os.path.dirname(os.path.abspath(nagini_translation.__file__))
    want = os.path.join(os.path.abspath(src), 'nagini_translation')
    if got != want:
        raise RuntimeError('nagini imported from %s, expected %s' % (got, want))
    from nagini_translation.lib import jvmaccess
    jvmaccess.JVM = FakeJVM
    jvmaccess.getobject = getobject
    jvmaccess.getclass = getclass
    return get_jvm()
