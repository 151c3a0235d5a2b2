"""Development aid: (re)create planted bugs in /verif/seeded from specifications in tools/plants/*.py.

  python3 tools/plant.py tools/plants/a.py [id ...]

A specification file defines PLANTS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = '/verif'
SH = '''#!/bin/bash
# exit 0 when the property holds on this demonstration's input, 1 when it does not
export MPLBACKEND=agg OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
T=$(mktemp -d) || exit 3
export NUMBA_CACHE_DIR="$T" MPLCONFIGDIR="$T" DEMO_TMP="$T"
/opt/venv/bin/python "$(dirname "$0")/demo.py"
rc=$?
case "$T" in /tmp/*) rm -rf "$T";; esac
exit $rc
'''
HEAD = '''import os, sys, warnings
import numpy as np
from sectionproperties.pre import Material, Geometry, CompoundGeometry
import sectionproperties.pre.library as lib
from sectionproperties.analysis import Section
warnings.filterwarnings("ignore")


def near(a, b, tol=1e-6, scale=None):
    a = np.asarray(a, float); b = np.asarray(b, float)
    s = scale if scale is not None else max(np.abs(b).max(), 1e-300)
    return bool(np.all(np.abs(a - b) <= tol * s))


def expect(ok, msg):
    if not ok:
        print("FAILED:", msg)
        sys.exit(1)


'''
def main():
    spec = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    for p in spec['PLANTS']:
        if only and p['id'] not in only: continue
        t = tempfile.mkdtemp(prefix='plant.')
        try:
            subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
            for f, old, new in p['edits']:
                q = f'{t}/r/src/sectionproperties/{f}'
                s = open(q).read()
                n = s.count(old)
                if n != 1:
                    print(p['id'], 'EDIT MATCHES', n, 'TIMES', f, repr(old[:60])); break
                open(q, 'w').write(s.replace(old, new))
            else:
                d = subprocess.run(['git', '-C', t + '/r', 'diff'], check=True, capture_output=True, text=True).stdout
                base = subprocess.run(['git', '-C', t + '/r', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]
                for ln in d.splitlines():
                    if ln.startswith('-') and not ln.startswith('---') and ln[1:].strip():
                        fs = subprocess.run(f'git -C {t}/r show {base}:src/sectionproperties/{p["edits"][0][0]}', shell=True, capture_output=True, text=True).stdout
                        if len(p['edits']) == 1 and ln[1:] not in fs.splitlines(): print(p['id'], 'NOTE: line not in original:', ln[1:])
                o = f'{V}/seeded/{p["id"]}'
                os.makedirs(o, exist_ok=True)
                open(o + '/patch.diff', 'w').write(d)
                open(o + '/demo.sh', 'w').write(SH)
                open(o + '/demo.py', 'w').write(HEAD + p['demo'].lstrip('\n'))
                json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(o + '/meta.json', 'w'), indent=1)
                print(p['id'], 'ok', len(d))
        finally:
            shutil.rmtree(t)
main()
