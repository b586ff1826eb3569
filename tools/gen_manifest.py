#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/*.py and properties.jsonl."""
import json, glob, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.dont_write_bytecode = True
import run
REASONS = json.load(open(V + '/tools/not_applicable.json')) if os.path.exists(V + '/tools/not_applicable.json') else {}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists('%s/checks/%s.py' % (V, pid)) and pid not in REASONS.get('_disabled', {}):
        c = run.load(pid)
        checks.append({'property': pid, 'quick_cmd': 'python3 run.py ' + pid, 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + pid, 'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'symbolic execution of the real functions (LLVM IR, SMT/Z3), counterexamples replayed natively', 'level': c.level,
            'level_note': 'For every value of the symbolic inputs within: ' + c.bounds + '. Trusted: the symx executor and its C library models (sampled paths are replayed on a native build and compared on every run), clang, Z3.' + ((' Assumes: ' + '; '.join(c.assumptions) + '.') if c.assumptions else '')})
    else: na.append({'property': pid, 'reason': REASONS.get(pid) or REASONS.get('_disabled', {}).get(pid) or 'no check built yet: the harness for this part of the code does not exist'})
m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'VERIF_BTREE_ITEM_COUNT, VERIF_ASSOC_HASHPOWER, VERIF_CMDLOG_BUFFER_SIZE, VERIF_CMDLOG_FLUSH_SIZE, VERIF_LOG_RECORD_SIZE, VERIF_SNAPSHOT_BUFFER_SIZE', 'enable': 'the b+tree harnesses compile engines/default with -DVERIF_BTREE_ITEM_COUNT=4 (entries per b+tree node; 32 when undefined); the index harness with -DVERIF_ASSOC_HASHPOWER=1 (initial size of the key index; 17 when undefined); the persistence harnesses with reduced buffer sizes (VERIF_CMDLOG_*, VERIF_LOG_RECORD_SIZE, VERIF_SNAPSHOT_BUFFER_SIZE; the original sizes when undefined)', 'source_commits': ['c364a60', 'ea88129', 'd7dd40c']},
     'notes': 'Solver-based checking of the real code: see DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
