#!/usr/bin/env python3
"""replay.py <replays/x.json>: rebuild the harness and run the recorded inputs."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import shutil
import tempfile
import run
r = json.load(open(sys.argv[1]))
if r.get('compile'):
    rc, o, e = run.sh(['g++-13'] + [f for f in r['flags'] if not f.startswith('-fbracket')] + run.INC + ['-w', '-fsyntax-only', r['file']])
    print('reproduced:\n' + e.decode(errors='replace')[:2000] if rc else 'not reproduced')
    sys.exit(1 if rc else 0)
d = tempfile.mkdtemp()
try:
    u = run.Unit(r['file'], r['config'], r['flags'], d)
    what = run.replay(u, r['harness'], {'inputs': r['inputs']})
finally:
    shutil.rmtree(d)
print('reproduced: ' + what if what else 'not reproduced')
sys.exit(1 if what else 0)
