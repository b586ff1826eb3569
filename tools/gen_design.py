#!/usr/bin/env python3
"""Writes /verif/DESIGN.md."""
import json, glob, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.path.insert(0, V + '/tools'); sys.dont_write_bytecode = True
import run, design_parts as D
REASONS = json.load(open(V + '/tools/not_applicable.json')) if os.path.exists(V + '/tools/not_applicable.json') else {}
COST = json.load(open(V + '/tools/cost.json'))
out = [D.HEAD, '## 2. Properties\n']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; out.append('### %s %s\n' % (i, p['title']))
    if not os.path.exists('%s/checks/%s.py' % (V, i)): out.append('Not claimed: %s\n' % (REASONS.get(i) or 'no check built.')); continue
    c = run.load(i); o, w = D.P[i]
    out.append('Specified: %s\n' % p['statement'])
    out.append('Oracle: %s. How: %s\n' % (o, w))
    out.append('Code encoded: %s (plus what these call). Cost: %s\n' % (', '.join(sorted({os.path.relpath(f, '.') for f in p['anchors']['files']})), COST.get(i, 'n/a')))
    out.append('| job | bounds |\n|---|---|')
    for j in c.jobs: out.append('| %s%s | %s |' % (j.name, ' (thorough only)' if getattr(j, 'only', None) else '', (j.bounds or '').replace('|', '\\|')))
    out.append('')
    if c.assumptions: out.append('Assumes: ' + '; '.join(c.assumptions) + '.\n')
out.append('## 3. Genuine defects found and repaired\n\nEach was shown by a replayed counterexample on the unchanged tree and repaired by a `fix:` commit in /repo; the check\nreports it again when it returns. `known_findings.json` holds the same list.\n')
KF = json.load(open(V + '/known_findings.json'))
for k in KF:
    if k['status'] == 'fixed': out.append('* %s' % k['entry'])
out.append('\nRecorded and not repaired (a repair needs a change of the log format or of what is logged):\n')
for k in KF:
    if k['status'] == 'known': out.append('* %s (job `%s`): %s' % (k['property'], k['job'], k['what']))
out.append('\n## 4. Alarms that were wrong, and what was corrected\n' + D.FALSE)
out.append('## 5. Planted bugs\n\nKept ones (`seeded/`), each confirmed to build, to pass the stable tests and to fail its demonstration:\n\n| bug | needs | caught by |\n|---|---|---|')
S = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m)); out.append('| %s | %s | %s |' % (n, str(d['needs']).replace('|', '\\|'), S.get(n, d['property'])))
out.append('\n' + getattr(D, 'MUT', ''))
out.append('## 6. Limitations\n' + D.LIMITS)
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
