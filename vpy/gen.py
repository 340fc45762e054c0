"""development tool: generated control-flow programs whose complete specification is computed by running CPython.

Every method's control flow depends on its inputs only through a fixed list of atoms, so running CPython once per
feasible valuation of the atoms gives the exact specification: one postcondition per leaf of the decision tree over the
atoms (normal and exceptional), and loop invariants from the states CPython reaches at each loop head.  Some leaves are
repeated with a wrong value; those lines must be reported.  The solver then decides the emitted program for all inputs.

usage: python3 -m vpy.gen   (writes corpus/own/*_gen*.py; deterministic)
"""
import ast
import itertools
import os
import random

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PRE = '''from nagini_contracts.contracts import *
from typing import Optional


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Cell:
    def __init__(self) -> None:
        self.t = 0
        Ensures(Acc(self.t) and self.t == 0)


def ev(c: Cell, k: int, b: bool) -> bool:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == b)
    c.t = c.t * 10 + k
    return b


def num(c: Cell, k: int, v: int) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and Result() == v)
    c.t = c.t * 10 + k
    return v


def boom(c: Cell, k: int, b: bool) -> int:
    Requires(Acc(c.t))
    Ensures(Acc(c.t) and c.t == Old(c.t) * 10 + k and not b and Result() == k)
    Exsures(E2, Acc(c.t) and c.t == Old(c.t) * 10 + k and b)
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k

'''
CMT = '''
class CM:
    def __init__(self, c: Cell, k: int, s: bool) -> None:
        self.c = c
        self.k = k
        self.s = s
        Ensures(Acc(self.c) and self.c is c and Acc(self.k) and self.k == k and Acc(self.s) and self.s == s)

    def __enter__(self) -> int:
        Requires(Acc(self.c) and Acc(self.k) and Acc(self.s) and Acc(self.c.t))
        Ensures(Acc(self.c) and Acc(self.k) and Acc(self.s) and self.c is Old(self.c) and self.k == Old(self.k) and self.s == Old(self.s))
        Ensures(Acc(self.c.t) and self.c.t == Old(self.c.t) * 10 + self.k and Result() == self.k)
        self.c.t = self.c.t * 10 + self.k
        return self.k

    def __exit__(self, t: type, e: Optional[Exception], tb: Optional[object]) -> bool:
        Requires(Acc(self.c) and Acc(self.k) and Acc(self.s) and Acc(self.c.t))
        Ensures(Acc(self.c) and Acc(self.k) and Acc(self.s) and self.c is Old(self.c) and self.k == Old(self.k) and self.s == Old(self.s))
        Ensures(Acc(self.c.t) and self.c.t == Old(self.c.t) * 10 + self.k + 1 and Result() == self.s)
        self.c.t = self.c.t * 10 + self.k + 1
        return self.s

'''


class E1(Exception): pass
class E2(E1): pass
class E3(Exception): pass


class Cell:
    def __init__(self): self.t = 0


class CM:
    def __init__(self, c, k, s): self.c, self.k, self.s = c, k, s
    def __enter__(self): self.c.t = self.c.t * 10 + self.k; return self.k
    def __exit__(self, t, e, tb): self.c.t = self.c.t * 10 + self.k + 1; return self.s


def ev(c, k, b): c.t = c.t * 10 + k; return b


num = ev


def boom(c, k, b):
    c.t = c.t * 10 + k
    if b:
        raise E2()
    return k


class Gen:
    def __init__(self, rng, feats, nb, depth, nat):
        self.r, self.feats, self.nb, self.depth, self.nat = rng, feats, nb, depth, nat
        self.mk = 0
        self.loops = []
        self.nloop = 0

    def mark(self):
        self.mk = self.mk % 9 + 1
        return self.mk

    def atom(self):
        c = ['b%d > 0' % i for i in range(self.nb)] + (['n > 0', 'n == 5'] if self.nat else [])
        return self.r.choice(c)

    def cond(self):
        r = self.r.random()
        if 'eff' in self.feats and r < .55:
            a = lambda: 'ev(c, %d, %s)' % (self.mark(), self.atom())
            k = self.r.randrange(8)
            if k == 0: return a()
            if k == 1: return '%s and %s' % (a(), a())
            if k == 2: return '%s or %s' % (a(), a())
            if k == 3: return 'not %s' % a()
            if k == 4: return '(%s if %s else %s)' % (a(), self.atom(), a())
            if k == 5: return '%s and (%s or %s)' % (a(), a(), a())
            if k == 6 and self.nat: return 'num(c, %d, 0) < num(c, %d, n)' % (self.mark(), self.mark())
            return '%s == %s' % (a(), a())
        if r < .75: return self.atom()
        if r < .85: return 'not (%s)' % self.atom()
        return '%s %s %s' % (self.atom(), self.r.choice(['and', 'or']), self.atom())

    def simple(self):
        k = self.r.randrange(10)
        m = self.mark()
        if k < 4: return ['c.t = c.t * 10 + %d' % m]
        if k < 6: return ['x = x + %d' % m]
        if k == 6: return ['x, c.t = c.t + %d, c.t * 10 + %d' % (m, m)]
        if k == 7 and 'eff' in self.feats: return ['x = num(c, %d, %d) - num(c, %d, x)' % (m, self.r.randrange(5), self.mark())]
        if k == 8 and 'exc' in self.feats: return ['x = boom(c, %d, %s)' % (m, self.atom())]
        if k == 9 and 'eff' in self.feats: return ['x += num(c, %d, %d)' % (m, self.r.randrange(5))]
        return ['c.t = c.t * 10 + %d' % m]

    def block(self, d, inloop, infin=False):
        out = []
        n = self.r.choice([1, 1, 2, 2, 3])
        for i in range(n):
            out += self.stmt(d, inloop, infin)
        # nothing after a jump
        for i, l in enumerate(out):
            if not l.startswith(' ') and l.split()[0] in ('return', 'raise', 'break', 'continue'):
                return out[:i + 1]
        return out

    def ind(self, b): return ['    ' + l for l in b]

    def jump(self, inloop, infin):
        opts = []
        if 'ret' in self.feats and not infin: opts += ['return %d' % self.mark(), 'return x']
        if 'exc' in self.feats: opts += ['raise E1()', 'raise E2()', 'raise E3()', 'raise E1()']
        if inloop: opts += ['break', 'continue']
        return [self.r.choice(opts)] if opts else self.simple()

    def stmt(self, d, inloop, infin):
        if d == 0:
            return self.simple() if self.r.random() < .6 else self.jump(inloop, infin)
        k = self.r.random()
        if k < .2: return self.simple()
        if k < .5 or not ({'exc', 'loop', 'with'} & self.feats):
            out = ['if %s:' % self.cond()] + self.ind(self.block(d - 1, inloop, infin))
            if self.r.random() < .5:
                out += ['else:'] + self.ind(self.block(d - 1, inloop, infin))
            return out
        ch = [f for f in ('try', 'try', 'loop', 'with') if (f == 'try' and 'exc' in self.feats) or f in self.feats]
        f = self.r.choice(ch)
        if f == 'with':
            return ['with CM(c, %d, %s) as w%d:' % (self.r.choice([1, 3, 5, 7]), self.r.choice(['b0 > 0', 'True', 'False']), d)] + \
                self.ind(self.block(d - 1, inloop, infin))
        if f == 'loop':
            if len(self.loops) >= 2 or inloop and self.r.random() < .5:
                return self.simple()
            self.nloop += 1
            v = 'k%d' % self.nloop
            K = self.r.choice([1, 2])
            self.loops.append(v)
            body = self.block(d - 1, True, infin)
            self.loops.pop()
            return ['%s = %d' % (v, K), 'while %s > 0:' % v, "    'INV %s %d %s'" % (v, K, ' '.join(self.loops)),
                    '    %s = %s - 1' % (v, v)] + self.ind(body)
        out = ['try:'] + self.ind(self.block(d - 1, inloop, infin))
        kinds = self.r.choice([['E1'], ['E2', 'E1'], ['E3'], ['E2'], ['Exception'], ['E2', 'Exception'], []])
        for e in kinds:
            b = self.block(d - 1, inloop, infin)
            if self.r.random() < .25:
                out += ['except %s as e%d:' % (e, d)] + self.ind(b)
            else:
                out += ['except %s:' % e] + self.ind(b)
        if kinds and self.r.random() < .3:
            out += ['else:'] + self.ind(self.block(d - 1, inloop, infin))
        if not kinds or self.r.random() < .45:
            out += ['finally:'] + self.ind(self.block(max(0, d - 2), False, 'finret' not in self.feats) if self.r.random() < .3 else self.simple())
        return out


def completes(b):
    return all(comp(s) for s in b)


def comp(s):
    if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
        return False
    if isinstance(s, ast.If):
        return completes(s.body) or completes(s.orelse)
    if isinstance(s, ast.Try):
        return completes(s.finalbody) and (completes(s.body) and completes(s.orelse) or any(completes(h.body) for h in s.handlers))
    return True


def prune(b):
    """drop what the type checker considers dead code"""
    out = []
    for s in b:
        for f in ('body', 'orelse', 'finalbody'):
            if getattr(s, f, None):
                setattr(s, f, prune(getattr(s, f)))
        for h in getattr(s, 'handlers', ()):
            h.body = prune(h.body)
        if isinstance(s, ast.Try) and not completes(s.body):
            s.orelse = []
        out.append(s)
        if not comp(s):
            break
    return out


def runtime(body):
    src = ['def f(c, %s, _rec):' % ', '.join(['b%d' % i for i in range(4)] + ['n']), '    x = 0']
    for l in body:
        s = l.lstrip()
        if s.startswith("'INV"):
            continue
        if s.startswith('while'):
            v = s.split()[1]
            src.append('    ' + l[:len(l) - len(s)] + 'while _rec(%r, locals()) and %s > 0:' % (v, v))
        else:
            src.append('    ' + l)
    src += ['    return x']
    env = dict(globals())
    exec('\n'.join(src), env)
    return env['f']


def leaves(table, atoms):
    """decision tree: [(list of (atom index, bool)), outcome]"""
    def go(rows, used):
        if len({o for _, o in rows}) == 1:
            return [((), rows[0][1])]
        best = None
        for i in range(len(atoms)):
            if i in used:
                continue
            a = [r for r in rows if r[0][i]]
            b = [r for r in rows if not r[0][i]]
            if not a or not b:
                continue
            s = len({o for _, o in a}) + len({o for _, o in b})
            if best is None or s < best[0]:
                best = (s, i, a, b)
        _, i, a, b = best
        return [(((i, True),) + p, o) for p, o in go(a, used | {i})] + [(((i, False),) + p, o) for p, o in go(b, used | {i})]
    return go(sorted(table.items()), frozenset())


def condstr(p, atoms):
    if not p:
        return 'True'
    return ' and '.join(atoms[i] if v else 'not (%s)' % atoms[i] for i, v in p)


def method(name, body, nb, nat, rng, tail, maxleaves=20, nwrong=2):
    f = runtime(body)
    atoms = ['b%d > 0' % i for i in range(nb)] + (['n > 0', 'n == 5'] if nat else [])
    out, heads = {}, {}
    for bs in itertools.product([False, True], repeat=nb):
        for n in ([-1, 5, 7] if nat else [0]):
            c = Cell()
            key = bs + ((n > 0, n == 5) if nat else ())

            def rec(v, loc):
                fu = tuple(sorted((k, loc[k]) for k in loc if k.startswith('k') and k != 'k'))
                heads.setdefault(v, []).append((key, fu, c.t, loc['x']))
                return True
            args = list(bs) + [False] * (4 - nb)
            try:
                r = ('ret', f(c, *args, n, rec), c.t)
            except Exception as e:
                if type(e).__name__ not in ('E1', 'E2', 'E3'):
                    return None
                r = ('exc', type(e).__name__, c.t)
            out[key] = r
    lv = leaves(out, atoms)
    if len(lv) > maxleaves or len(lv) < 2:
        return None
    if max(abs(o[2]) for _, o in lv) > 10 ** 9:
        return None
    params = ', '.join(['c: Cell'] + ['b%d: int' % i for i in range(nb)] + (['n: int'] if nat else []))
    src = ['def %s(%s) -> int:' % (name, params), '    Requires(Acc(c.t) and c.t == 0)', '    Ensures(Acc(c.t))']
    post, expost = [], []
    hasexc = any(o[0] == 'exc' for _, o in lv)
    EX = '#:: ExpectedOutput(postcondition.violated:assertion.false)'
    for p, o in lv:
        cs = condstr(p, atoms)
        if o[0] == 'ret':
            post.append('    Ensures(Implies(%s, c.t == %d and Result() == %d))' % (cs, o[2], o[1]))
            if hasexc:
                expost.append('    Exsures(Exception, not (%s))' % cs)
        else:
            post.append('    Ensures(not (%s))' % cs)
            ty = {'E1': 'isinstance(RaisedException(), E1) and not isinstance(RaisedException(), E2)',
                  'E2': 'isinstance(RaisedException(), E2)', 'E3': 'isinstance(RaisedException(), E3)'}[o[1]]
            expost.append('    Exsures(Exception, Implies(%s, c.t == %d and %s))' % (cs, o[2], ty))
    wrong = rng.sample(lv, min(nwrong, len(lv)))
    for p, o in wrong:
        cs = condstr(p, atoms)
        if o[0] == 'ret':
            bad = 'c.t == %d' % (o[2] + 1) if rng.random() < .5 else 'Result() == %d' % (o[1] + 1)
            post += ['    ' + EX, '    Ensures(Implies(%s, %s))' % (cs, bad)]
        elif rng.random() < .5:
            expost += ['    ' + EX, '    Exsures(Exception, Implies(%s, c.t == %d))' % (cs, o[2] + 1)]
        else:
            other = {'E1': 'E3', 'E2': 'E3', 'E3': 'E1'}[o[1]]
            expost += ['    ' + EX, '    Exsures(Exception, Implies(%s, isinstance(RaisedException(), %s)))' % (cs, other)]
    src += post
    if hasexc:
        src += ['    Exsures(Exception, Acc(c.t))'] + expost
    src += ['    x = 0']
    for l in body:
        s = l.lstrip()
        ind = '    ' + l[:len(l) - len(s)]
        if not s.startswith("'INV"):
            src.append('    ' + l)
            continue
        v, K, outer = s.strip("'").split()[1], int(s.strip("'").split()[2]), s.strip("'").split()[3:]
        if v not in heads:
            src.append(ind + 'Invariant(Acc(c.t))')
            continue
        fuels = outer + [v]
        src.append(ind + 'Invariant(Acc(c.t) and 0 <= %s <= %d)' % (v, K))
        rows = {}
        for key, fu, t, x in heads[v]:
            fu = dict(fu)
            fk = tuple(fu[z] for z in fuels)
            if rows.setdefault(fk, {}).setdefault(key, (t, x)) != (t, x):
                return None
        okeys = {fk[:-1] for fk in rows}
        for ofk in sorted(okeys):
            for k in range(K + 1):
                fk = ofk + (k,)
                table = {key: rows.get(fk, {}).get(key, 'unreach') for key in
                         {key for f2 in rows if f2[:-1] == ofk for key in rows[f2]}}
                for p, o in leaves(table, atoms):
                    cs = ' and '.join(['%s == %d' % (z, q) for z, q in zip(fuels, fk)] + ([condstr(p, atoms)] if p else []))
                    if o == 'unreach':
                        src.append(ind + 'Invariant(not (%s))' % cs)
                    else:
                        src.append(ind + 'Invariant(Implies(%s, c.t == %d and x == %d))' % (cs, o[0], o[1]))
        # valuations that never reach this loop
        every = set(out)
        for ofk in sorted(okeys):
            reach = {key for f2 in rows if f2[:-1] == ofk for key in rows[f2]}
            if reach != every:
                table = {key: key in reach for key in every}
                for p, o in leaves(table, atoms):
                    if not o:
                        cs = ' and '.join(['%s == %d' % (z, q) for z, q in zip(outer, ofk)] + [condstr(p, atoms)])
                        src.append(ind + 'Invariant(not (%s))' % cs)
    src += (['    return x'] if tail else []) + ['']
    return '\n'.join(src)


FAMILIES = {
    # name: (property prefix, features, booleans, depth, use n, files, methods per file)
    'cf': ('C03', {'ret', 'eff'}, 3, 3, True, 6, 6),
    'cfloop': ('C06', {'ret', 'loop'}, 3, 3, False, 6, 4),
    'exc': ('C04', {'ret', 'exc'}, 3, 3, False, 8, 5),
    'excloop': ('C04', {'ret', 'exc', 'loop'}, 3, 3, False, 6, 3),
    'with': ('C04', {'ret', 'exc', 'with'}, 2, 3, False, 4, 4),
    'exceff': ('C03', {'ret', 'exc', 'eff'}, 3, 2, True, 4, 5),
}


def main():
    os.makedirs(os.path.join(HERE, 'corpus', 'own'), exist_ok=True)
    for fam, (pid, feats, nb, depth, nat, files, per) in FAMILIES.items():
        for fi in range(files):
            rng = random.Random('%s-%d' % (fam, fi))
            ms = []
            tries = 0
            while len(ms) < per and tries < 4000:
                tries += 1
                g = Gen(rng, feats, nb, depth, nat)
                body = g.block(depth, False)
                if not 5 <= len(body) <= 26:
                    continue
                m = ast.parse('def f():\n' + '\n'.join('    ' + l for l in body)).body[0]
                alive = prune(m.body)
                body = ast.unparse(ast.Module(alive, [])).split('\n')
                tail = completes(alive)
                txt = '\n'.join(body)
                need = {'cfloop': ['while'], 'exc': ['try'], 'excloop': ['try', 'while'], 'with': ['with'], 'exceff': ['raise', 'ev(']}.get(fam, [])
                if any(x not in txt for x in need):
                    continue
                try:
                    m = method('m%d' % len(ms), body, nb, nat, rng, tail, nwrong=1)
                except RecursionError:
                    continue
                if m:
                    ms.append(m)
            src = PRE + (CMT if 'with' in feats else '') + '\n' + '\n\n'.join(ms)
            with open(os.path.join(HERE, 'corpus', 'own', '%s_gen_%s_%d.py' % (pid, fam, fi)), 'w') as f:
                f.write(src)


if __name__ == '__main__':
    main()
