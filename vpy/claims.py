"""development tool: claim files.  corpus/claims/<PROP>_<name>.txt lists small setups and claims about them; CPython decides
which claims hold (all sampled inputs) and which are false (some input), and the claims that the verifier must accept or
report become methods of corpus/own/<PROP>_claims_<name>.py.  At check time the solver decides each of them for all inputs.

lines:   `: text` verbatim top-level code        `case a: int, b: bool` starts a group (parameters)
         `req e` precondition                    `| stmt` setup
         `? e` claim asserted after the setup    `! stmt` statement that may raise    `# ...` comment
         `opt k=v ...` translation options       `post e` claim as postcondition (Result(), Old() are available)
         `only` before a claim keeps it although CPython cannot evaluate it:  `?T e` must hold, `?F e` must be reported

usage: python3-vt -m vpy.claims [name...]
"""
import ast
import copy
import glob
import itertools
import os
import re
import sys
from multiprocessing import Pool

from . import corpus

SRC = os.path.join(corpus.CORPUS, 'claims')
OWN = os.path.join(corpus.CORPUS, 'own')
HEAD = 'from nagini_contracts.contracts import *\nfrom typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar\n'
INTS = [0, 1, -1, 2, -2, 3, -3, 4, 5, 6, 7, 8, 9, -7, -8, 10, 100, -13]
VALUES = {
    'int': INTS, 'bool': [False, True], 'object': [None, 1, 'a', 0, '', (), b'', 2.5, False, range(0)],
    'str': ['', 'a', 'b', 'ab', 'ba', 'abc', 'aa'],
    'bytes': [b'', b'a', b'ab', b'\x00\xff', b'abc'],
    'float': [0.0, 1.0, -1.5, 2.5, 1e30, float('inf'), float('nan')],
    'Optional[int]': [None, 0, 1, -1, 5],
    'Optional[List[int]]': [None, [], [1]],
    'Optional[float]': [None, 0.0, 1.0, -1.5, float('inf'), float('nan')],
    'List[int]': [[], [0], [1], [3, -2], [0, 1, 2], [5, 5, 1, 7]],
    'List[bool]': [[], [True], [False, True]],
    'List[str]': [[], ['a'], ['a', 'b', 'a']],
    'Set[int]': [set(), {0}, {1, 2}, {3, -2, 7}],
    'Dict[int, int]': [{}, {0: 1}, {1: 2, 2: 1}, {3: 3, -1: 0, 5: 7}],
    'Dict[str, int]': [{}, {'a': 1}, {'a': 2, 'b': 0}],
    'Tuple[int, int]': [(0, 0), (1, 2), (-3, 4)],
    'Tuple[int, ...]': [(), (1,), (1, 2), (3, -1, 4)],
    'int|str': [0, 1, 'a', ''],
}
HEAPY = {'List': 'list_pred', 'Set': 'set_pred', 'Dict': 'dict_pred'}


def pseq(*a):
    return PSeqV(a)


class PSeqV(tuple):
    def __new__(cls, a=()):
        return tuple.__new__(cls, a)

    def __add__(self, o):
        return PSeqV(tuple(self) + tuple(o))

    def take(self, n):
        return PSeqV(tuple(self)[:max(n, 0)])

    def drop(self, n):
        return PSeqV(tuple(self)[max(n, 0):])

    def update(self, i, v):
        if not 0 <= i < len(self):
            raise IndexError
        return PSeqV(tuple(self)[:i] + (v,) + tuple(self)[i + 1:])


class PByteSeqV(PSeqV):
    def __new__(cls, a=()):
        a = tuple(a)
        if any(not 0 <= x < 256 for x in a):
            raise ValueError
        return tuple.__new__(cls, a)

    def __add__(self, o):
        return PByteSeqV(tuple(self) + tuple(o))

    def take(self, n):
        return PByteSeqV(tuple(self)[:max(n, 0)])

    def drop(self, n):
        return PByteSeqV(tuple(self)[max(n, 0):])

    def update(self, i, v):
        if not 0 <= i < len(self):
            raise IndexError
        return PByteSeqV(tuple(self)[:i] + (v,) + tuple(self)[i + 1:])


class PSetV(frozenset):
    def __new__(cls, a=()):
        return frozenset.__new__(cls, a)

    def __add__(self, o):
        return PSetV(frozenset(self) | frozenset(o))

    def __sub__(self, o):
        return PSetV(frozenset(self) - frozenset(o))


class PMultisetV:
    def __init__(self, a=()):
        import collections
        self.c = collections.Counter(a)

    def __add__(self, o):
        r = PMultisetV()
        r.c = self.c + o.c
        return r

    def __sub__(self, o):
        r = PMultisetV()
        r.c = self.c - o.c
        return r

    def __len__(self):
        return sum(self.c.values())

    def num(self, x):
        return self.c[x]

    def __contains__(self, x):
        return self.c[x] > 0

    def __eq__(self, o):
        return isinstance(o, PMultisetV) and +self.c == +o.c

    def __hash__(self):
        return hash(frozenset((+self.c).items()))


def quant(all_):
    def q(dom, f):
        dom = range(-12, 13) if dom is int else ([False, True] if dom is bool else list(dom))
        r = []
        for x in dom:
            v = f(x)
            r.append(bool(v[0] if isinstance(v, tuple) else v))
        return (all if all_ else any)(r)
    return q


def stubs():
    def true(*a):
        return True

    def ident(x, *a):
        return x
    ns = {n: true for n in ('Acc', 'Rd', 'Wildcard', 'list_pred', 'set_pred', 'dict_pred', 'bytearray_pred', 'MayCreate', 'MaySet')}
    ns.update(ADT=type('ADT', (), {}), Implies=lambda p, q: (not p) or q, Forall=quant(True), Exists=quant(False), Let=lambda v, t, f: f(v),
              ToSeq=lambda c: PSeqV(c), ToMS=lambda s: PMultisetV(s), PSeq=lambda *a: PSeqV(a), PSet=lambda *a: PSetV(a),
              PMultiset=lambda *a: PMultisetV(a), PByteSeq=lambda *a: PByteSeqV(a), ToByteSeq=lambda c: PByteSeqV(c),
              Unfold=true, Fold=true, Assert=true, Assume=true, Requires=true, Ensures=true, Exsures=true, Invariant=true,
              Pure=ident, Predicate=ident, ContractOnly=ident, Inline=ident, Ghost=ident, Opaque=ident, Decreases=true, Reveal=ident,
              Unfolding=lambda p, e: e, Previous=lambda x: PSeqV(()), Refute=true, Result=true, Old=ident, cast=lambda t, v: v)
    from typing import List, Dict, Set, Tuple, Optional, Union, Generic, TypeVar
    ns.update(List=List, Dict=Dict, Set=Set, Tuple=Tuple, Optional=Optional, Union=Union, Generic=Generic, TypeVar=TypeVar,
              NamedTuple=__import__('typing').NamedTuple)
    return ns


def parse(path):
    top, groups, opts = [], [], []
    g = None
    for raw in open(path):
        s = raw.rstrip('\n')
        if not s.strip() or s.startswith('#'):
            continue
        if s.startswith(':'):
            top.append(s[2:])
        elif s.startswith('opt '):
            opts.append(s[4:])
        elif s == 'case' or s.startswith('case '):
            g = dict(params=[], req=[], setup=[], claims=[], head=s)
            for p in re.split(r',\s*(?![^\[]*\])', s[4:].strip()):
                if p:
                    n, t = p.split(':', 1)
                    g['params'].append((n.strip(), t.strip()))
            groups.append(g)
        elif s.startswith('values '):
            n, e = s[7:].split(' = ', 1)
            top.append('#values %s = %s' % (n, e))
        elif s.startswith('req '):
            g['req'].append(s[4:])
        elif s.startswith('|'):
            g['setup'].append(s[2:])
        elif s[0] in '?!' or s.startswith('post'):
            m = re.match(r'(\?[TF]?|![TF]?|post[TF]?) (.*)$', s)
            kind, text = m.groups()
            force = kind[-1] if kind[-1] in 'TF' else None
            g['claims'].append((kind.rstrip('TF'), force, text, len(g['setup'])))
        else:
            raise SystemExit('%s: cannot parse %r' % (path, s))
    return top, groups, opts


class Strip(ast.NodeTransformer):
    """without contract statements"""
    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in (
                'Requires', 'Ensures', 'Exsures', 'Invariant', 'Fold', 'Unfold', 'Decreases', 'Assert', 'Assume'):
            return ast.Pass()
        return n


class Lazy(ast.NodeTransformer):
    """Implies does not evaluate its consequent in vain"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'Implies':
            return ast.BoolOp(ast.Or(), [ast.UnaryOp(ast.Not(), n.args[0]), n.args[1]])
        return n


def ind(lines, n=4):
    return ''.join(' ' * n + l + '\n' for l in lines)


def ret_type(g):
    for n, t in g['params']:
        if n == 'return':
            return t
    return 'None'


def truth(top, g, claim, limit=4000):
    """True / False / None (never evaluated)"""
    kind, force, text, ns = claim
    if force:
        return force == 'T'
    env = stubs()
    body = '\n'.join(l for l in top if not l.startswith('from nagini'))
    exec(compile(ast.fix_missing_locations(Strip().visit(ast.parse(body))), '<top>', 'exec'), env)
    params = [(n, t) for n, t in g['params'] if n != 'return']
    src = 'def __f(%s):\n' % ', '.join(n for n, _ in params)
    src += ''.join('    if not (%s): return "skip"\n' % r for r in g['req'])
    src += ind(g['setup'][:ns])
    if kind == '?':
        src += '    return bool(%s)\n' % text
    else:
        src += ind([text]) + '    return True\n'
    exec(compile(ast.fix_missing_locations(Lazy().visit(ast.parse(src))), '<claim>', 'exec'), env)
    f = env['__f']
    own = dict(l[8:].split(' = ', 1) for l in top if l.startswith('#values '))
    doms = [eval(own[t], env) if t in own else VALUES[t] for _, t in params]
    n = 1
    for d in doms:
        n *= len(d)
    step = max(1, n // limit)
    seen = False
    for i, vals in enumerate(itertools.product(*doms)):
        if step > 1 and i % step and i % 7:
            continue
        try:
            r = f(*copy.deepcopy(vals))
        except UnboundLocalError:
            return False
        except NameError:
            raise
        except Exception as e:
            if kind == '?' and isinstance(e, TypeError):
                raise
            return False
        if r == 'skip':
            continue
        seen = True
        if not r:
            return False
    return True if seen else None


GHOST = [False]


def method(k, g, claim, ann=None):
    """(text, offset of the claim line, offsets of the setup lines)"""
    kind, force, text, ns = claim
    params = [(n, t) for n, t in g['params'] if n != 'return']
    ann, defann = ann or ((), ())
    lines = list(defann) + ['def c%d(%s) -> None:' % (k, ', '.join('%s: %s' % (n, 'Union[int, str]' if t == 'int|str' else t) for n, t in params))]
    for n, t in params:
        h = HEAPY.get(t.split('[')[0])
        if h:
            lines.append('    Requires(%s(%s))' % (h, n))
    for r in g['req']:
        lines.append('    Requires(%s)' % r)
    for s in g['setup'][:ns]:
        lines.append('    ' + s)
    for a in ann:
        lines.append('    ' + a)
    at = len(lines)
    if kind == '?':
        spec = re.search(r'\b(Implies|Forall|Exists|Acc|Rd|Wildcard|Let|ToSeq|ToMS|PSeq|PSet|PMultiset|PByteSeq|ToByteSeq|Unfolding|Old|Reveal|\w+_pred)\(', text)
        lines.append('    Assert(%s)' % text if spec or GHOST[0] else '    assert ' + text)
    elif GHOST[0]:
        lines.append('    Assert(%s == %s)' % (text, text))
    else:
        lines.append('    ' + text)
    return '\n'.join(lines) + '\n', at


def build(top, items, opts):
    """items: (group, claim, annotations) -> text, claim line numbers"""
    out = HEAD
    GHOST[0] = 'ghost=1' in opts
    opts = [o for o in opts if o != 'ghost=1']
    if opts:
        out += '# case: %s\n' % ' '.join(opts)
    out += '\n\n' + '\n'.join(l for l in top if not l.startswith('#values')) + '\n'
    where = []
    for k, (g, c, ann) in enumerate(items):
        t, at = method(k, g, c, ann)
        out += '\n\n'
        start = out.count('\n') + 1
        out += t
        where.append((start, start + at, start + t.count('\n') - 1))
    return out, where


def solo(rel, top, item, opts, log, name):
    """does the translation of this claim alone crash?"""
    text, _ = build(top, [item], opts)
    open(os.path.join(corpus.CORPUS, rel), 'w').write(text)
    r = corpus.run(rel, only=['c0'])
    if r['status'] == 'crash':
        log.append('%s: CRASH %s | %s: %s' % (name, item[0]['head'], item[1][2], r['trace'].strip().split('\n')[-1]))
    return r['status'] == 'crash'


PART = 40


def prepare(path):
    """[(name, top, opts, items, truths, log)], each part at most PART claims"""
    name = os.path.basename(path)[:-4]
    top, groups, opts = parse(path)
    items, truths, log = [], [], []
    for g in groups:
        for c in g['claims']:
            try:
                t = truth(top, g, c)
            except Exception as e:
                log.append('%s: cannot evaluate %s %s: %r' % (name, g['head'], c[2], e))
                continue
            if t is None:
                log.append('%s: never evaluated %s %s' % (name, g['head'], c[2]))
                continue
            items.append((g, c, None))
            truths.append(t)
    prop, rest = name.split('_', 1)
    for f in glob.glob(os.path.join(OWN, '%s_claims_%s.py' % (prop, rest))) + glob.glob(os.path.join(OWN, '%s_claims_%s__*.py' % (prop, rest))):
        os.remove(f)
    n = max(1, -(-len(items) // PART))
    size = -(-len(items) // n)
    parts = []
    for k in range(n):
        nm = name if n == 1 else '%s__%d' % (name, k)
        parts.append((nm, top, opts, items[k * size:(k + 1) * size], truths[k * size:(k + 1) * size], log if k == 0 else []))
    return parts


def work(part):
    name, top, opts, items, truths, log = part
    prop, rest = name.split('_', 1)
    rel = 'own/%s_claims_%s.py' % (prop, rest)
    out = os.path.join(corpus.CORPUS, rel)
    for attempt in range(60):
        text, where = build(top, items, opts)
        open(out, 'w').write(text)
        r = corpus.run(rel, case_timeout=2000, rlimit=1_000_000)
        if r['status'] == 'rejected' and r['errors'] and len(items) > 1:
            bad = set()
            for l, i, v in r['errors']:
                for k, (a, b, e) in enumerate(where):
                    if a <= l <= e:
                        bad.add(k)
                        log.append('%s: REJECTED %s %s: %s' % (name, items[k][0]['head'], items[k][1][2], i))
            if bad:
                items = [x for k, x in enumerate(items) if k not in bad]
                truths = [x for k, x in enumerate(truths) if k not in bad]
                continue
        if r['status'] == 'crash':
            bad = [k for k, it in enumerate(items) if solo(rel, top, it, opts, log, name)]
            if bad:
                items = [x for k, x in enumerate(items) if k not in bad]
                truths = [x for k, x in enumerate(truths) if k not in bad]
                continue
        break
    if r['status'] != 'ok':
        log.append('%s: %s %s %s' % (name, r['status'], r['errors'][:5], r.get('trace', '')[-1500:]))
        os.remove(out)
        return log
    und = {m for m, _ in r['undecided']}
    keep, annot = [], []
    for k, (g, c, _) in enumerate(items):
        a, b, e = where[k]
        errs = sorted({(l, i) for l, i, v in r['errors'] if a <= l <= e})
        at = sorted({i for l, i in errs if l == b})
        # an exception that leaves the method is reported at its definition
        dat = sorted({i for l, i in errs if l == a and c[0] == '!' and i == 'exhale.failed:assertion.false'})
        at, nat = at + dat, at
        if any(u.startswith('c%d' % k) and not u[len('c%d' % k):len('c%d' % k) + 1].isdigit() for u in und):
            log.append('%s: UNDECIDED %s | %s' % (name, g['head'], c[2]))
            continue
        if len(errs) > len(at):
            log.append('%s: SETUP %s | %s: %s' % (name, g['head'], c[2], [text.split('\n')[l - 1].strip() + ' -> ' + i for l, i in errs if l != b]))
            continue
        if truths[k] and at:
            log.append('%s: incomplete %s | %s: %s' % (name, '; '.join([g['head']] + g['req'] + g['setup']), c[2], at))
            continue
        if not truths[k] and not at:
            log.append('%s: UNSOUND %s | %s' % (name, '; '.join([g['head']] + g['req'] + g['setup']), c[2]))
            continue
        keep.append((g, c, tuple(['#:: ' + '|'.join('ExpectedOutput(%s)' % i for i in x)] if x else [] for x in (nat, dat)) if at else None))
    stray = [x for x in r['errors'] if not any(a <= x[0] <= e for a, b, e in where)]
    if stray:
        log.append('%s: errors elsewhere: %s' % (name, stray))
    if not keep:
        os.remove(out)
        return log
    text, where = build(top, keep, opts)
    open(out, 'w').write(text)
    log.append('%s: %d claims kept (%d must be reported), %.0fs' % (name, len(keep), sum(1 for x in keep if x[2]), r['wall']))
    return log


def main():
    pats = sys.argv[1:]
    files = [f for f in sorted(glob.glob(SRC + '/*.txt')) if not pats or any(p in os.path.basename(f) for p in pats)]
    corpus.warm()
    with Pool(8, maxtasksperchild=1) as p:
        parts = [x for f in p.imap_unordered(prepare, files) for x in f]
        for log in p.imap_unordered(work, parts):
            print('\n'.join(log), flush=True)


if __name__ == '__main__':
    main()
