#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has harnesses in vp/h."""
import glob
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))
NOTE = json.load(open(os.path.join(ROOT, 'tools', 'level_notes.json')))
checks, na = [], []
for ln in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(ln)['id']
    if glob.glob(os.path.join(ROOT, 'vp', 'h', pid + '*.cpp')):
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 vp/run.py ' + pid,
            'thorough_cmd': 'python3 vp/run.py ' + pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'bounded symbolic model checking of the compiled headers (LLVM IR to CBMC/SAT)',
            'level': 'other',
            'level_note': NOTE.get(pid, 'Exhaustive over all symbolic input values of each harness within its unwinding bound; '
                                   'trusts clang, the listed opt passes, the IR to C encoder (validated on concrete runs) and CBMC.'),
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'No check yet.')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Each check recompiles its harnesses in vp/h against /repo/include, so no hooks in /repo are needed. See DESIGN.md.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
