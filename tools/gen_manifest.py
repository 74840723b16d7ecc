#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import specs
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if pid in specs.SPECS:
        s = specs.SPECS[pid]
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py %s quick' % pid,
            'thorough_cmd': 'python3 check.py %s thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': s.get('technique', 'runtime monitoring: randomised workload under %s with online oracles' %
                ', '.join(sorted({{'asan': 'ASan+UBSan', 'asan0': 'ASan+UBSan', 'tsan': 'TSan', 'aonly': 'ASan', 'plain': 'interposed monitors', 'ubsan': 'UBSan', 'glibcxx': 'library assertions'}[u['mode']] for u in s['units']}))),
            'level': 'exploration',
            'level_note': s.get('note', 'holds on every execution observed; reach comes from workload diversity, not enumeration'),
        })
    else:
        na.append({'property': pid, 'reason': specs.NOT_APPLICABLE.get(pid, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py',
           'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: the harnesses observe through public interfaces and link-time interposition', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'each check builds its harnesses from /repo\'s current tree'}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
