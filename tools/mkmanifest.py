#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and tools/jobs.py.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, 'tools'))
from jobs import PROPS, NA
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []; na = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
          'technique': p.get('technique', 'symbolic execution of the LLVM IR of the real headers with z3 and state merging, against a reference acceptor'), 'level': 'model_checking',
          'level_note': p.get('note', 'Every value, reaction outcome and call sequence within the charts and bounds of the listed jobs is decided; where a job closes, sequences of calls are unbounded. ') + 'Trusts the symbolic executor (sampled paths are compared with the natively compiled code under sanitizers) and the reference acceptor. Violations are replayed natively before they are reported.'})
    else: na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks, 'not_applicable': na, 'notes': 'See DESIGN.md. No hooks are needed in /repo; fix commits are listed in known_findings.txt.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
