"""python3-vt -m vpy.replay <program relative to corpus/>: show one program's outcome in full"""
import json
import sys
from . import corpus
corpus.warm()
r = corpus.run(sys.argv[1], seed=int(sys.argv[2]) if len(sys.argv) > 2 else 0)
print(json.dumps({k: v for k, v in r.items() if k not in ('member_names',)}, indent=1, default=str))
