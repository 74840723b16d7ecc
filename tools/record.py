#!/usr/bin/env python3
"""record.py PROPERTY [N]: append the last N fix commits of /repo to known_findings.json."""
import json, os, subprocess, sys
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(f)); n = int(sys.argv[2]) if len(sys.argv) > 2 else 1
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '-%d' % n, '--reverse', '--format=%h %s'], text=True).splitlines():
    h, m = l.split(' ', 1); assert m.startswith('fix: ')
    e = 'fixed: property=%s %s %s' % (sys.argv[1], h, m[5:])
    if h not in ' '.join(k['fixed']): k['fixed'].append(e); print(e)
json.dump(k, open(f, 'w'), indent=1)
