"""demo: translate and verify PROG with the repository in the current directory; the reported errors must be exactly the
annotated ones (#:: ExpectedOutput(...) before the offending line)"""
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
os.environ['NAGINI_REPO'] = os.getcwd()
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(here, 'vpy.zip'))
import logging
logging.disable(logging.CRITICAL)
from vpy import corpus
corpus.CORPUS = here
bad = 0
for prog in sys.argv[1:]:
    must, may, _ = corpus.annotations(os.path.join(here, prog))
    r = corpus.run(prog, rlimit=6_000_000)
    must = {(l, i) for l, i, v in must}
    got = {(l, i.replace(', ', '; ')) for l, i, v in r['errors']}
    print(prog, r['status'], 'reported', sorted(got), 'expected', sorted(must), r['undecided'], (r.get('trace') or '')[-300:])
    if r['status'] == 'crash' or (must - got and not r['undecided']) or got - must - {tuple(x) for x in may}:
        bad = 1
sys.exit(bad)
