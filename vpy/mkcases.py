"""development tool: run every corpus program on the unchanged tree, compare with its annotations, and write
corpus/cases.json (outcome per program, used by the checks to schedule and to know which lines the executor decides).

usage: python3-vt -m vpy.mkcases [prefix...]      (only programs whose relative path starts with a prefix)
"""
import glob
import json
import os
import sys
from multiprocessing import Pool

from . import corpus

LIMITS = json.load(open(os.path.join(corpus.CORPUS, 'limits.json')))
INDEX = os.path.join(corpus.CORPUS, 'cases.json')


def load():
    return json.load(open(INDEX)) if os.path.exists(INDEX) else {}


def work(rel):
    must, may, flags = corpus.annotations(os.path.join(corpus.CORPUS, rel))
    if 'ignore' in flags:
        return rel, None
    r = corpus.run(rel)
    r['must'] = must
    r['may'] = may
    return rel, r


def main():
    pref = sys.argv[1:]
    idx = load()
    rels = []
    for f in sorted(glob.glob(corpus.CORPUS + '/**/*.py', recursive=True)):
        rel = os.path.relpath(f, corpus.CORPUS)
        if '/resources/' in rel or rel.endswith('__init__.py') or '/lib_' in rel:
            continue
        if pref and not any(rel.startswith(p) for p in pref):
            continue
        rels.append(rel)
    rels.sort(key=lambda r: -idx.get(r, {}).get('wall', 5))
    bad = 0
    corpus.warm()
    with Pool(8, maxtasksperchild=1) as p:
        for rel, r in p.imap_unordered(work, rels):
            if r is None:
                idx.pop(rel, None)
                continue
            got = [(l, i.replace(', ', '; '), list(v)) for l, i, v in r['errors']]
            must = [(l, i, list(v)) for l, i, v in r['must']]
            may = [tuple(x) for x in r['may']]
            missing = [m for m in must if m not in got]
            extra = [g for g in got if g not in must and (g[0], g[1]) not in may]
            e = {'status': r['status'], 'errors': [[l, i, list(v)] for l, i, v in r['errors']],
                 'wall': round(r['wall'], 1), 'queries': r['stats'].get('queries', 0), 'members': r['members'],
                 'reach': r.get('reach', []), 'dead': r.get('dead', [])}
            lim = LIMITS.get(rel, {})
            if lim.get('skip'):
                continue
            missing = [m for m in missing if m[0] not in lim.get('lines', ())]
            extra = [m for m in extra if m[0] not in lim.get('lines', ())]
            if '/translation/' in rel and r['status'] == 'ok' and not missing:
                extra = []
            if missing or extra or r['undecided'] or r['status'] == 'crash':
                bad += 1
                e['diff'] = {'missing': missing, 'extra': extra, 'undecided': r['undecided']}
                print('DIFF', rel, r['status'], 'missing', missing, 'extra', extra, 'und', r['undecided'],
                      r.get('trace', '')[-300:], flush=True)
                for d in r.get('detail', []):
                    if (d[1], d[2]) in {(x[0], x[1]) for x in extra}:
                        print('      ', d, flush=True)
            idx[rel] = e
    idx = {k: v for k, v in idx.items() if os.path.exists(os.path.join(corpus.CORPUS, k))}
    json.dump(dict(sorted(idx.items())), open(INDEX, 'w'), indent=0)
    print(len(rels), 'programs', bad, 'differ')


if __name__ == '__main__':
    main()
