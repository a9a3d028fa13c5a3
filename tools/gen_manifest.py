#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property that has a check."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TECH = json.load(open(os.path.join(root, 'tools', 'techniques.json')))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(root, 'harness/src/bin/%s.rs' % i.lower())):
        t = TECH.get(i, {})
        checks.append({
            'property': i,
            'quick_cmd': './check.sh %s quick' % i,
            'thorough_cmd': './check.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': t.get('technique', 'property-based testing over generated inputs against a reference model')
                + '; then coverage-guided search over the same generators',
            'level': 'exploration',
            'level_note': t.get('note', 'Held on every generated case; the oracle and the generators are trusted.'),
        })
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {
    'version': 1,
    'setup_cmd': './check.sh setup',
    'hooks': {
        'guard': 'cfg(bongo_verif); cfg(bongo_verif_errors), _follows, _nonnull, _lalr, _buffer, _mergeables and _sync each enable the hooks of one file',
        'enable': 'check.sh builds /repo as a path dependency with RUSTFLAGS="--cfg bongo_verif"; if that build fails, with the flag of the one file the check needs, and then with none',
        'source_commits': ['2dc50cf', 'cb725b8', '0ca366c'],
    },
    'checks': checks,
    'not_applicable': na,
    'notes': 'Known findings: KNOWN_FINDINGS.txt (all fixed). Replay a case: ./check.sh <id> replay FILE.',
}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed,', len(na), 'not')
