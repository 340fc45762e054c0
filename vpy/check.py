"""python3-vt -m vpy.check <PROPERTY> [--tier quick|thorough]

Decides one property: runs its corpus programs (translate with the repository's code, decide every emitted member with
the solver, convert failures with the repository's code) and its other engines, writes evidence/<id>.json and prints
`VIOLATION property=<id> replay=<path>` for each deviation.
"""
import argparse
import json
import os
import sys
import time
import traceback
from multiprocessing import Pool, TimeoutError as PoolTimeout

from . import corpus, props

HERE = corpus.HERE
EVID = os.path.join(HERE, 'evidence')


class Result:
    """what an engine hands back"""

    def __init__(self, name):
        self.name = name
        self.programs = 0
        self.compared = 0
        self.queries = 0
        self.proved = 0
        self.solver_s = 0.0
        self.members = 0
        self.samples = []
        self.functions = set()
        self.inconclusive = []
        self.violations = []      # (key, text)
        self.known = []           # (key, text)
        self.bounds = {}
        self.extra = {}

    def violation(self, key, text):
        self.violations.append((key, text))


def _case(args):
    rel, kw = args
    try:
        return corpus.run(rel, **kw)
    except BaseException:
        return {'rel': rel, 'status': 'harness', 'trace': traceback.format_exc()[-2000:], 'errors': [], 'undecided': [],
                'stats': {}, 'members': 0, 'wall': 0, 'detail': []}


def pmap(fn, items, deadline, chunk=1, procs=8):
    """unordered parallel map, one forked worker per item, stopping at the deadline"""
    out = []
    with Pool(procs, maxtasksperchild=chunk) as p:
        it = p.imap_unordered(fn, items)
        for _ in range(len(items)):
            try:
                out.append(it.next(timeout=max(1, deadline - time.time())))
            except PoolTimeout:
                break
            except StopIteration:
                break
        p.terminate()
    return out


def compare(rel, r, exp, lim):
    """(missing, extra, notes): deviations of an outcome from what the program must yield"""
    must, may, _ = corpus.annotations(os.path.join(corpus.CORPUS, rel))
    must = [(l, i, tuple(v)) for l, i, v in must]
    skip = set(lim.get('lines', ()))
    got = [(l, i.replace(', ', '; '), tuple(v)) for l, i, v in r['errors']]
    missing = [m for m in must if m not in got and m[0] not in skip]
    extra = [g for g in got if g not in must and (g[0], g[1]) not in may and g[0] not in skip]
    notes = []
    if r['status'] == 'crash':
        notes.append(('crash', r.get('trace', '').strip().split('\n')[-1]))
    elif r['status'] != exp['status']:
        notes.append(('status', '%s instead of %s: %s' % (r['status'], exp['status'], r['errors'][:3])))
    if '/translation/' in rel and r['status'] == 'ok' and exp['status'] == 'ok':
        extra = []
    if r['status'] == 'ok' and exp['status'] == 'ok' and not r['undecided'] and not missing and not extra:
        gone = sorted(set(exp.get('reach', ())) - set(r.get('reach', ())))
        dead = sorted(set(r.get('dead', ())) - set(exp.get('dead', ())))
        if gone:
            notes.append(('unreachable', 'no feasible execution reaches the code of line(s) %s' % gone))
        if dead:
            notes.append(('vacuous', 'every execution of the member at line(s) %s is assumed away' % dead))
    if r['undecided']:
        # members that were not decided can neither fail nor pass: only definite deviations count
        missing = []
    return missing, extra, notes


def run_corpus(rels, deadline, tier, name='corpus'):
    res = Result(name)
    idx = json.load(open(os.path.join(corpus.CORPUS, 'cases.json')))
    lims = json.load(open(os.path.join(corpus.CORPUS, 'limits.json')))
    rels = [r for r in rels if r in idx and not lims.get(r, {}).get('skip')]
    rels.sort(key=lambda r: -idx[r]['wall'])
    kw = {'rlimit': 3_000_000 if tier == 'quick' else 6_000_000, 'member_timeout': 100 if tier == 'quick' else 200,
          'case_timeout': 200 if tier == 'quick' else 500}
    res.bounds = {'rlimit per query': kw['rlimit'], 'seconds per member': kw['member_timeout'],
                  'solver attempts per query': 3}
    try:
        corpus.warm()
    except corpus.VF.Rejected:
        pass
    except Exception:
        pass
    outs = pmap(_case, [(r, kw) for r in rels], deadline)
    done = {o['rel'] for o in outs}
    for r in rels:
        if r not in done:
            res.inconclusive.append('%s: not finished in time' % r)
    again = []
    for o in sorted(outs, key=lambda o: o['rel']):
        account(res, o)
        if o['status'] == 'harness':
            res.inconclusive.append('%s: harness error %s' % (o['rel'], o['trace'].strip().split('\n')[-1]))
            res.extra.setdefault('harness_errors', []).append(o['trace'])
            continue
        for m, why in o['undecided']:
            res.inconclusive.append('%s: %s: %s' % (o['rel'], m, why))
        d = compare(o['rel'], o, idx[o['rel']], lims.get(o['rel'], {}))
        if any(d):
            again.append((o, d))
    # a deviation counts only if it shows again from different solver states and with a larger budget
    if again:
        jobs = []
        for o, d in again:
            for seed in (1, 2):
                jobs.append((o['rel'], dict(kw, seed=seed, rlimit=kw['rlimit'] * 3, retries=3)))
        second = pmap(_case, jobs, max(deadline, time.time() + 200))
        for o, d in again:
            mine = [s for s in second if s['rel'] == o['rel'] and s['status'] != 'harness']
            ms, es, ns = set(d[0]), set(d[1]), set(k for k, _ in d[2])
            for s in mine:
                m2, e2, n2 = compare(s['rel'], s, idx[s['rel']], lims.get(s['rel'], {}))
                ms &= set(m2)
                es &= set(e2)
                ns &= set(k for k, _ in n2)
            if not mine:
                res.inconclusive.append('%s: deviation %s could not be confirmed' % (o['rel'], d))
                continue
            if not (ms or es or ns):
                res.inconclusive.append('%s: deviation %s did not show again' % (o['rel'], d))
                continue
            res.violation(o['rel'], describe(o, sorted(ms), sorted(es), [n for n in d[2] if n[0] in ns]))
    for o in outs[:3]:
        res.samples.append({'program': o['rel'], 'status': o['status'], 'members': o['members'],
                            'queries': o['stats'].get('queries', 0), 'errors': [list(map(str, e)) for e in o['errors']][:6]})
    return res


def account(res, o):
    res.programs += 1
    must, may, _ = corpus.annotations(os.path.join(corpus.CORPUS, o['rel']))
    res.compared += max(1, len(must)) + o['stats'].get('queries', 0)
    res.queries += o['stats'].get('queries', 0) + o['stats'].get('feas', 0)
    res.proved += o['stats'].get('proved', 0)
    res.solver_s += o['stats'].get('solver_s', 0)
    res.members += o['members']
    for m in o.get('member_names', ()):
        res.functions.add(o['rel'].split('/')[-1] + ':' + m)


def describe(o, missing, extra, notes):
    t = ['program: corpus/%s' % o['rel'], '']
    for l, i, v in missing:
        t.append('the program violates its specification at line %d (%s%s), but every obligation generated for it is '
                 'proved (or the failure is reported elsewhere/otherwise): the violation is not reported' %
                 (l, i, ' via %s' % (v,) if v else ''))
    for l, i, v in extra:
        t.append('the program satisfies its specification at line %d, but verification reports %s there%s' %
                 (l, i, ' via %s' % (v,) if v else ''))
    for k, n in notes:
        t.append('%s: %s' % (k, n))
    t.append('')
    t.append('reported: %s' % ([(l, i, list(v)) for l, i, v in o['errors']],))
    for m, l, i, f in o.get('detail', ()):
        if any(l == e[0] for e in extra):
            t.append('failing obligation in %s: %s' % (m, f))
    if o.get('trace'):
        t += ['', o['trace']]
    t += ['', 'replay: cd %s && python3-vt -m vpy.replay %s' % (HERE, o['rel']), '', '---- program ----',
          open(os.path.join(corpus.CORPUS, o['rel'])).read()]
    return '\n'.join(t)


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = props.PROPS[a.prop]
    deadline = t0 + (500 if a.tier == 'quick' else 3000)
    results = []
    rels = props.programs(a.prop, a.tier)
    if rels:
        results.append(run_corpus(rels, deadline, a.tier))
    for eng in P.get('engines', ()):
        mod, fn = eng.split(':')
        m = __import__('vpy.' + mod, fromlist=['x'])
        results.append(getattr(m, fn)(a.prop, a.tier, seed, deadline))
    findings = [f for f in known_findings() if f.get('property') == a.prop and f.get('status') == 'known']
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    nviol = 0
    for r in results:
        for key, text in r.violations:
            hit = [f for f in findings if f['key'] == key]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (a.prop, hit[0]['what']))
                continue
            nviol += 1
            p = os.path.join(EVID, 'replay', '%s_%d.txt' % (a.prop, nviol))
            with open(p, 'w') as f:
                f.write('property %s: %s\n\n%s\n' % (a.prop, P['title'], text))
            print('VIOLATION property=%s replay=%s' % (a.prop, p))
            print('   ' + text.strip().replace('\n', '\n   ')[:700])
    samples = [s for r in results for s in r.samples][:12]
    cov = {
        'programs': sum(r.programs for r in results),
        'disagreements_checked': sum(r.compared for r in results),
        'samples': samples or ['(none)'],
        'queries_discharged': sum(r.queries for r in results),
        'obligations_proved': sum(r.proved for r in results),
        'solver_seconds': round(sum(r.solver_s for r in results), 1),
        'members_or_paths': sum(r.members for r in results),
        'functions_encoded': sorted({f for r in results for f in r.functions})[:400],
        'engines': [{'name': r.name, 'programs': r.programs, 'queries': r.queries, 'bounds': r.bounds, **r.extra} for r in results],
        'inconclusive': [x for r in results for x in r.inconclusive][:100],
        'anchors': P['anchors']['files'],
    }
    if P.get('level') == 'other':
        cov['explanation'] = P['level_note']
    ev = {'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': P.get('level', 'translation_validation'),
          'coverage': cov, 'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 1),
          'violations': nviol}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, a.prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d programs/units, %d queries, %d inconclusive, %d violations, %.0fs' %
          (a.prop, cov['programs'], cov['queries_discharged'], len(cov['inconclusive']), nviol, time.time() - t0))
    # nothing was decided at all: that is an error of the check (or a tree that does not import)
    if nviol:
        sys.exit(1)
    if not cov['programs'] or len(cov['inconclusive']) > 5 and cov['queries_discharged'] == 0:
        print('nothing could be decided')
        sys.exit(3)
    sys.exit(0)


if __name__ == '__main__':
    main()
