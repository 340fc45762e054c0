"""dev: python3 dev/mkseed.py ID PROPERTY 'needs' 'what it breaks' prog.py...   (patch = git diff of $WT, default /tmp/wt)
creates seeded/ID and validates it against a clean and the changed tree"""
import json, os, shutil, subprocess, sys, zipfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get('WT', '/tmp/wt')
sid, prop, needs, what, *progs = sys.argv[1:]
d = os.path.join(V, 'seeded', sid)
os.makedirs(d, exist_ok=True)
patch = subprocess.run(['git', '-C', WT, 'diff'], capture_output=True, text=True).stdout
assert patch
open(d + '/patch.diff', 'w').write(patch)
if progs and progs[0].endswith('.py') and '--script' not in progs:
    shutil.copy(V + '/dev/demo.py', d + '/demo.py')
    with zipfile.ZipFile(d + '/vpy.zip', 'w', zipfile.ZIP_DEFLATED) as z:
        for f in ('__init__', 'vast', 'silparse', 'fakejvm', 'theories', 'vexec', 'verify', 'corpus'):
            z.write(V + '/vpy/%s.py' % f, 'vpy/%s.py' % f)
    for p in progs:
        shutil.copy(p, d)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nPYTHONHASHSEED=0 exec python3-vt "$D/demo.py" %s\n'
                                    % ' '.join(os.path.basename(p) for p in progs))
else:
    progs = [p for p in progs if p != '--script']
    for p in progs:
        shutil.copy(p, d)
    s = os.path.basename(progs[0])
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nPYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 exec python3-vt "$D/%s"\n' % s)
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
a = subprocess.run([d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
b = subprocess.run([d + '/demo.sh'], cwd=WT, capture_output=True, text=True)
print('clean', a.returncode, a.stdout[-600:], a.stderr[-300:])
print('patched', b.returncode, b.stdout[-600:], b.stderr[-300:])
print('OK' if a.returncode == 0 and b.returncode != 0 else 'BAD')
